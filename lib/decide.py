"""Comparison of normal forms.

Two guarded normal forms are compared cell by cell: a cell is one combination of outcomes of
the condition variables both forms test.  A cell whose outcomes contradict each other (linear
arithmetic over the monomials, eliminated variable by variable) is vacuous; in every other
cell the two results must be the same normal form."""
import os
from fractions import Fraction
from alg import Rat, C, A, ZERO, ONE, sys_atoms, atom, normal_sign, factors
from dd import *
import dd
from vg import Subst, atoms_in, zcanon, linear_elim, is_seq, untj, near

OPAQUE_HEADS = ("exitval", "kexit", "loopend", "loopexit", "app", "undef", "callv", "num")


class Diff:
    def __init__(self, path, got, want, cell, weak=False):
        self.path, self.got, self.want, self.cell, self.weak = path, got, want, cell, weak

    def text(self):
        c = " & ".join(cell_text(self.cell))
        return "%s: computed %s, required %s%s" % (self.path or "result", short(self.got), short(self.want),
                                                   (" when " + c) if c else "")


def short(v, n=1500):
    s = dd.brief(v)
    return s if len(s) <= n else s[:n] + "…"


def cell_text(asg):
    out = []
    for v, i in asg.items():
        key, n = VARS[v]
        if key[0] == "sgn":
            out.append("%s %s 0" % (dd.pstr(dict(key[1])), "<=>"[i]))
        elif key[0] == "ge":
            out.append("%s %s %d" % (dd.pstr(dict(key[1])), "<" if i == 0 else ">=", key[2]))
        elif key[0] == "bool":
            out.append(("" if i else "not ") + kname(key[1])[:1200])
        else:
            out.append("%s = #%d" % (kname(key[1])[:1200], i))
    return out


# ------------------------------------------------------------- feasibility of a cell

class Infeasible(Exception):
    pass


def _lin(p):
    """polynomial dict -> (linear form over monomials, constant)"""
    d = dict(p)
    return {m: c for m, c in d.items() if m != ()}, d.get((), Fraction(0))


def cell_constraints(asg):
    """[(poly, kind)] kind in '=','>','>=' meaning poly kind 0; integer strictness folded"""
    out = []
    for v, i in asg.items():
        key, n = VARS[v]
        if key[0] == "sgn":
            p = dict(key[1])
            if i == 1:
                out.append((p, "="))
            elif i == 2:
                out.append((p, ">"))
            else:
                out.append(({m: -c for m, c in p.items()}, ">"))
        elif key[0] == "ge":
            p = dict(key[1])
            t = Fraction(key[2])
            if i == 1:
                q = dict(p)
                q[()] = q.get((), Fraction(0)) - t
            else:
                q = {m: -c for m, c in p.items()}
                q[()] = q.get((), Fraction(0)) + t - 1
            out.append((q, ">="))
    return out


def empty_range(n, asg):
    """the cell forces the count n to be zero or negative"""
    if not isinstance(n, Rat) or len(n.den) != 1 or () not in n.den or not linear_form(n.num):
        return False
    k = n.den[()]
    p = {m: c / k for m, c in n.num.items()}
    p[()] = p.get((), Fraction(0)) - 1
    return not feasible(asg, [(p, ">=")])


def vanishing(asg, a, b):
    """repetitions that the cell forces to run zero times: {atom: initial value}; False when the
    cell contradicts that"""
    for v, i in asg.items():
        key, n = VARS[v]
        k = key[1] if key[0] in ("bool", "enum") else None
        if not isinstance(k, tuple) or len(k) < 2 or not isinstance(k[1], V):
            continue
        if k[0] == "fold" and k[1].tag == "fold" and empty_range(k[1].parts[0], asg):
            x = k[1].parts[2][0]
            x = C(1 if x else 0) if isinstance(x, bool) else x
            if isinstance(x, Rat) and x.const() is not None and x != C(i):
                return False
        elif k[0] == "exists" and k[1].tag == "lam" and empty_range(k[1].parts[0], asg):
            if i == 1:
                return False
    out = {}
    for x in (a, b):
        if not isinstance(x, Rat):
            continue
        for t in x.atoms():
            k = sys_atoms[t].key
            if k[0] == "fold" and is_tag(k[1], "fold") and isinstance(k[1].parts[2][0], (Rat, D)) and empty_range(k[1].parts[0], asg):
                out[t] = k[1].parts[2][0]
    return out


def forced_equal(a, b, asg):
    """the conditions of the cell leave no room for a difference (integers between two bounds)"""
    d = a - b
    if len(d.den) != 1 or () not in d.den or not linear_form(d.num):
        return False
    k = d.den[()]
    p = {m: c / k for m, c in d.num.items()}
    q = {m: -c for m, c in p.items()}
    if d.is_int():
        p, q = dict(p), dict(q)
        p[()] = p.get((), Fraction(0)) - 1
        q[()] = q.get((), Fraction(0)) - 1
        return not feasible(asg, [(p, ">=")]) and not feasible(asg, [(q, ">=")])
    return not feasible(asg, [(p, ">")]) and not feasible(asg, [(q, ">")])


def multiple(d, asg):
    """the difference d is a multiple of a polynomial the cell says is zero"""
    zero = [dict(VARS[v][0][1]) for v, i in asg.items() if VARS[v][0][0] == "sgn" and i == 1]
    if not zero or not d.num:
        return False
    parts = [frozenset(primitive(f).items()) for f, _ in factors(d.num)[1]]
    return any(frozenset(primitive(z).items()) in parts for z in zero)


def primitive(p):
    """p divided by the coefficient of its first monomial"""
    k = p[min(p, key=repr)]
    return {m: c / k for m, c in p.items()}


def linear_form(p):
    return all(len(m) == 0 or (len(m) == 1 and m[0][1] == 1) for m in p)


def nonlinear_equalities(asg):
    n = 0
    for v, i in asg.items():
        key = VARS[v][0]
        if key[0] == "sgn" and i == 1 and not linear_form(dict(key[1])):
            n += 1
    return n


def feasible_products(asg):
    """like feasible, with the products of every two linear conditions added: emptiness of the
    polyhedron these rows span over the monomials (linear programme)"""
    from alg import pmul
    cons = cell_constraints(asg)
    lin = []
    for p, k in cons:
        if linear_form(p):
            lin.append((p, k))
    for v in sorted({a for p, k in cons for m in p for a, e in m}):
        if sys_atoms[v].nonneg:
            lin.append(({((v, 1),): Fraction(1)}, ">="))
    rows = list(cons) + [(p, k) for p, k in lin]
    for i, (p, k) in enumerate(lin):
        for q, l in lin[i:]:
            if len(rows) > 1500:
                break
            pq = pmul(p, q)
            if k == "=" or l == "=":
                rows.append((pq, "="))
            else:
                rows.append((pq, ">" if (k, l) == (">", ">") else ">="))
    for p, k in cons:
        if k == "=" and not linear_form(p):
            continue
    atoms = sorted({a for p, k in cons for m in p for a, e in m})
    for p, k in cons:
        if k == "=" and linear_form(p):
            for a in atoms:
                rows.append((pmul(p, {((a, 1),): Fraction(1)}), "="))
    for a in atoms:
        rows.append(({((a, 2),): Fraction(1)}, ">="))
    monos = sorted({m for p, k in rows for m in p if m != ()})
    if not monos:
        return True
    ix = {m: i for i, m in enumerate(monos)}
    try:
        from scipy.optimize import linprog
    except ImportError:
        return True
    # homogenised: maximise the margin e of the strict rows; empty iff no positive margin
    n = len(monos) + 2
    Aub, bub, Aeq, beq = [], [], [], []
    for p, k in rows:
        r = [0.0] * n
        for m, c in p.items():
            r[ix[m] if m != () else n - 2] += float(c)
        if k == "=":
            Aeq.append(r)
            beq.append(0.0)
        else:
            r = [-x for x in r]
            if k == ">":
                r[n - 1] = 1.0
            Aub.append(r)
            bub.append(0.0)
    bounds = [(-1e4, 1e4)] * (n - 2) + [(0, 1e4), (0, 1)]
    # the homogenising unknown carries the constant 1 > 0
    r = [0.0] * n
    r[n - 2], r[n - 1] = -1.0, 1.0
    Aub.append(r)
    bub.append(0.0)
    cost = [0.0] * (n - 1) + [-1.0]
    try:
        res = linprog(cost, A_ub=Aub, b_ub=bub, A_eq=Aeq or None, b_eq=beq or None, bounds=bounds, method="highs")
    except Exception:
        return True
    if res.status == 0 and -res.fun < 1e-9:
        return False
    return True


def mono_sign(m, known):
    """sign of a monomial from known atom signs: 1, -1, 0 or None"""
    s = 1
    for v, e in m:
        if e % 2 == 0:
            if known.get(v) == 0:
                return 0
            if v not in known or known[v] is None:
                s = None if s is None else s * 1
                # even power: >= 0 only
                return None
            continue
        k = known.get(v)
        if k is None:
            return None
        s *= k
    return s


def feasible(asg, extra=()):
    """False only if the outcomes of the cell contradict each other"""
    cons = cell_constraints(asg) + list(extra)
    if not cons:
        return True
    # sums of squares: never negative, and zero only where every squared form is
    more = []
    for p, k in cons:
        for q, s in ((p, 1), ({m: -c for m, c in p.items()}, -1)):
            f = squares(q)
            if f is None:
                continue
            if k == ">" and s == -1:
                return False
            if k == "=" or (k == ">=" and s == -1):
                more += [(x, "=") for x in f]
    cons += more
    # eliminate linear equalities (over atoms)
    sub = {}
    changed = True
    eqs = [dict(p) for p, k in cons if k == "="]
    ineqs = [(dict(p), k) for p, k in cons if k != "="]
    for _ in range(len(eqs)):
        for j, p in enumerate(eqs):
            s = linear_elim_simple(p)
            if s is not None:
                break
        else:
            break
        eqs.pop(j)
        (a, r), = s.items()
        try:
            eqs = [psubst(q, a, r) for q in eqs]
            ineqs = [(psubst(q, a, r), k) for q, k in ineqs]
        except ZeroDivisionError:
            return True
        for q in eqs:
            if list(q) == [()]:
                return False
        eqs = [q for q in eqs if q]
        for q, k in ineqs:
            if not q and k == ">":
                return False
            if list(q) == [()] and (q[()] < 0 or (k == ">" and q[()] == 0)):
                return False
    # monomials as independent unknowns; known non-negative ones added
    rows = []
    monos = set()
    for q in eqs:
        rows.append((q, ">="))
        rows.append(({m: -c for m, c in q.items()}, ">="))
    rows += ineqs
    for q, k in rows:
        monos |= {m for m in q if m != ()}
    signs = {}
    for q, k in rows:
        nz = [m for m in q if m != ()]
        if len(nz) == 1 and len(nz[0]) == 1 and nz[0][0][1] == 1 and () not in q:
            pass
    # signs of single atoms fixed by the cell
    known = {}
    for q, k in ineqs:
        if len(q) == 1:
            (m, c), = q.items()
            if len(m) == 1 and m[0][1] == 1 and k == ">":
                known[m[0][0]] = 1 if c > 0 else -1
    for m in monos:
        if all(e % 2 == 0 or sys_atoms[v].nonneg for v, e in m):
            strict = all(known.get(v) in (1, -1) for v, e in m)
            rows.append(({m: Fraction(1)}, ">" if strict else ">="))
        elif len(m) > 1 or m[0][1] > 1:
            s = mono_sign(m, known)
            if s:
                rows.append(({m: Fraction(s)}, ">"))
    return fm(rows)


_prmemo = {}


def prune(g, limit=600):
    """the guard without the paths that contradict themselves (g itself if there are too many paths)"""
    if not isinstance(g, D):
        return g
    if g in _prmemo:
        return _prmemo[g]
    n = [0]

    class Many(Exception):
        pass

    def go(x, asg):
        if not isinstance(x, D):
            if x is False:
                return False
            n[0] += 1
            if n[0] > limit:
                raise Many()
            return x if feasible(asg) else False
        ch = []
        for i in range(VARS[x.var][1]):
            asg[x.var] = i
            ch.append(go(x.ch[i], asg))
            del asg[x.var]
        return mk(x.var, ch)
    try:
        r = go(g, {})
    except Many:
        r = g
    _prmemo[g] = r
    return r


_sqmemo = {}


def squares(p):
    """the linear forms whose squares (with positive weights) add up to p, if it is such a sum"""
    if not any(len(m) == 1 and m[0][1] == 2 for m in p):
        return None
    if any(sum(e for _, e in m) > 2 or any(e < 0 for _, e in m) for m in p):
        return None
    key = tuple(sorted(p.items()))
    if key in _sqmemo:
        return _sqmemo[key]
    vs = sorted({v for m in p for v, e in m})
    ix = {v: i for i, v in enumerate(vs)}
    n = len(vs) + 1                       # last row: the constant 1
    M = [[Fraction(0)] * n for _ in range(n)]
    for m, c in p.items():
        idx = [ix[v] for v, e in m for _ in range(e)]
        idx += [n - 1] * (2 - len(idx))
        i, j = idx
        M[i][j] += c / 2
        M[j][i] += c / 2
    forms = []
    ok = True
    for k in range(n):
        d = M[k][k]
        if d < 0 or (d == 0 and any(M[k][j] for j in range(k, n))):
            ok = False
            break
        if d == 0:
            continue
        row = [M[k][j] / d for j in range(n)]
        f = {}
        for j in range(k, n):
            if row[j]:
                f[((vs[j], 1),) if j < n - 1 else ()] = row[j]
        forms.append(f)
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                M[i][j] -= d * row[i] * row[j]
    r = forms if ok else None
    _sqmemo[key] = r
    return r


def linear_elim_simple(p):
    """p=0 solved for an atom that occurs only linearly with constant coefficient"""
    best = None
    for m, c in p.items():
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if all(m2 == m or a not in dict(m2) for m2 in p):
                if best is None or a > best:
                    best = a
    if best is None:
        return None
    c = p[((best, 1),)]
    return {best: {m: -x / c for m, x in p.items() if m != ((best, 1),)}}


def psubst(p, a, r):
    """substitute polynomial r for atom a in polynomial p"""
    from alg import pmul, padd
    out = {}
    for m, c in p.items():
        d = dict(m)
        e = d.pop(a, 0)
        t = {tuple(sorted(d.items())): c}
        for _ in range(e):
            t = pmul(t, r)
        out = padd(out, t)
    return out


def fm(rows):
    """Fourier-Motzkin elimination over independent unknowns; False = contradiction"""
    def norm(q):
        s = max((abs(c) for m, c in q.items()), default=Fraction(1))
        return tuple(sorted((m, c / s) for m, c in q.items())) if s else ()
    cur = {}
    for q, k in rows:
        cur[(norm(q), k)] = 1
    cur = [(dict(q), k) for (q, k) in cur]
    for _ in range(60):
        for q, k in cur:
            nz = [m for m in q if m != ()]
            if not nz:
                c = q.get((), Fraction(0))
                if c < 0 or (c == 0 and k == ">"):
                    return False
        cur = [(q, k) for q, k in cur if any(m != () for m in q)]
        if not cur:
            return True
        monos = {}
        for q, k in cur:
            for m, c in q.items():
                if m != ():
                    a = monos.setdefault(m, [0, 0])
                    a[c > 0] += 1
        m = min(monos, key=lambda x: (monos[x][0] * monos[x][1], x))
        if monos[m][0] * monos[m][1] > 400:
            return True
        pos = [(q, k) for q, k in cur if q.get(m, 0) > 0]
        neg = [(q, k) for q, k in cur if q.get(m, 0) < 0]
        nxt = {}
        for q, k in cur:
            if not q.get(m, 0):
                nxt[(norm(q), k)] = 1
        for q1, k1 in pos:
            for q2, k2 in neg:
                a, b = q1[m], -q2[m]
                d = {}
                for x, c in q1.items():
                    d[x] = d.get(x, 0) + c * b
                for x, c in q2.items():
                    d[x] = d.get(x, 0) + c * a
                d = {x: c for x, c in d.items() if c != 0}
                k = ">" if ">" in (k1, k2) else ">="
                nxt[(norm(d), k)] = 1
        cur = [(dict(q), k) for (q, k) in nxt]
    return True


# ------------------------------------------------------------- comparison

def is_opaque(v):
    """does the value rest on something the analysis could not express?"""
    for a in atoms_in(v):
        if isinstance(a, int):
            if head(sys_atoms[a].key) in OPAQUE_HEADS:
                return True
        else:
            key = VARS[a[1]][0]
            if key[0] in ("bool", "enum") and head(key[1]) in OPAQUE_HEADS:
                return True
    return has_opq(v)


def head(k):
    while isinstance(k, tuple) and k and k[0] == "v" and len(k) > 1:
        k = k[1]
    if isinstance(k, tuple) and k:
        h = k[0]
        if isinstance(h, tuple):
            return head(h)
        if h == "phi":
            return "exitval"
        if h == "post" and len(k) > 2:
            return k[2]
        if h in ("at", "post", "*", "fld") and len(k) > 1 and isinstance(k[1], tuple):
            return head(k[1])
        return h
    return None


def has_opq(v):
    st, seen = [v], set()
    while st:
        x = st.pop()
        if isinstance(x, (str, bool, int)) or x is None:
            continue
        if x is UNDEF:
            continue
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, D):
            st.extend(x.ch)
        elif isinstance(x, V):
            if x.tag == "opq" and head(x.parts[0]) in OPAQUE_HEADS:
                return True
            if x.tag == "symseq" and head(x.parts[0]) in OPAQUE_HEADS:
                return True
            st.extend(x.parts)
        elif isinstance(x, tuple):
            st.extend(x)
    return False


QUANT = ("exists", "first", "fold", "count", "at", "len")


def quantified(v, out=None):
    """searches, folds and counts over a range of symbolic size in a value: their form is not unique, so
    two that differ may still be equal"""
    out = set() if out is None else out
    st, seen = [v], set()
    while st:
        x = st.pop()
        if isinstance(x, (str, bool, int)) or x is None or x is UNDEF or x in seen:
            continue
        seen.add(x)
        if isinstance(x, Rat):
            for i in x.atoms():
                st.append(sys_atoms[i].key)
        elif isinstance(x, D):
            key = VARS[x.var][0]
            st.append(Rat(dict(key[1])) if key[0] in ("sgn", "ge") else key[1])
            st.extend(x.ch)
        elif isinstance(x, V):
            st.extend(x.parts)
        elif isinstance(x, tuple):
            if x and x[0] in QUANT and len(x) > 1 and isinstance(x[1], V) and (is_seq(x[1]) or x[0] not in ("at", "len")):
                out.add(x)
            st.extend(x)
    return out


def cell_quantified(asg, out):
    for v in asg:
        key = VARS[v][0]
        quantified(Rat(dict(key[1])) if key[0] in ("sgn", "ge") else key[1], out)
    return out


class Cmp:
    def __init__(self, eng, limit=20000, base=None, common=()):
        self.eng = eng
        self.common = common
        self.base = dict(base or {})
        self.diffs = []
        self.cells = 0
        self.limit = limit
        self.unknown = []

    def run(self, got, want, guard=True):
        self.common = quantified(got) & quantified(want)
        self.go(zc(self.eng, got), zc(self.eng, want), guard, "")
        return self

    def verdict(self):
        if self.diffs:
            return "differs" if any(not d.weak for d in self.diffs) else "maybe"
        return "unknown" if self.unknown else "equal"

    def go(self, a, b, g, path):
        if len(self.diffs) > 3 or g is False:
            return
        if same(a, b):
            return
        if isinstance(a, V) and isinstance(b, V) and a.tag == b.tag:
            if a.tag in ("struct", "variant") and len(a.parts[1]) == len(b.parts[1]):
                for i, (x, y) in enumerate(zip(a.parts[1], b.parts[1])):
                    self.go(x, y, g, path + "." + fname(self.eng, a.parts[0], i))
                return
            if a.tag == "enum":
                self.go(a.parts[1], b.parts[1], g, path + ".tag")
                db = dict(b.parts[2])
                for k, fs in a.parts[2]:
                    gb = lift(lambda r: r == C(k), b.parts[1])
                    gk = g_and(g, gb)
                    if gk is False:
                        continue
                    fb = db.get(k)
                    if fb is None:
                        continue
                    for i, (x, y) in enumerate(zip(fs, fb)):
                        self.go(x, y, gk, path + ".%d.%d" % (k, i))
                return
            if a.tag == "lit" and len(a.parts[0]) == len(b.parts[0]):
                for i, (x, y) in enumerate(zip(a.parts[0], b.parts[0])):
                    self.go(x, y, g, path + "[%d]" % i)
                return
            if a.tag == "cat" and len(a.parts[0]) == len(b.parts[0]) and all(
                    same(self.eng.seq_len(x), self.eng.seq_len(y)) for x, y in zip(a.parts[0], b.parts[0])):
                for i, (x, y) in enumerate(zip(a.parts[0], b.parts[0])):
                    self.go(x, y, g, path + "[part %d]" % i)
                return
            if a.tag == "comp":
                n1, b1, c1, v1 = a.parts
                n2, b2, c2, v2 = b.parts
                if b1 != b2:
                    S = Subst(self.eng, {b1: A(b2)})
                    c1, v1 = S(c1), S(v1)
                if (c1 is not True or c2 is not True) and not same(n1, n2):
                    self.diffs.append(Diff(path, a, b, {}, True))
                    return
                self.go(n1, n2, g, path + "[count]")
                self.go(c1, c2, g, path + "[filter]")
                self.go(v1, v2, g_and(g, c2) if c2 is not True else g, path + "[each]")
                return
        self.leaf(a, b, g, path)

    def leaf(self, a, b, g, path):
        eng = self.eng
        stack = dict(self.base)

        def pair(x, y):
            if x is UNDEF or y is UNDEF or same(x, y):
                return False
            return V("pair", x, y)
        memo = {}

        def build(x, y, h):
            if h is False or (x is y):
                return False
            k = (x, y, h)
            r = memo.get(k)
            if r is None:
                t = top(x, y, h)
                if t is None:
                    r = pair(x, y)
                else:
                    r = mk(t, [build(cof(x, t, i), cof(y, t, i), cof(h, t, i)) for i in range(VARS[t][1])])
                memo[k] = r
            return r

        def go(e, asg):
            if e is False or len(self.diffs) > 3 or self.cells > self.limit:
                return
            if not isinstance(e, D):
                self.cells += 1
                if self.cells > self.limit and not self.unknown:
                    self.unknown.append((path, "too many cells"))
                self.cell(e.parts[0], e.parts[1], asg, path)
                return
            t = e.var
            if t in asg:
                go(e.ch[asg[t]], asg)
                return
            for i in range(VARS[t][1]):
                if e.ch[i] is False:
                    continue
                asg[t] = i
                if len(asg) < 6 or feasible(asg):
                    go(e.ch[i], asg)
                del asg[t]
        go(build(a, b, g), stack)

    def cell(self, a, b, asg, path):
        if not feasible(asg):
            return
        eng = self.eng
        g = True
        van = vanishing(asg, a, b)
        if van is False:
            return
        if van:
            S = Subst(eng, van)
            a, b = S(a), S(b)
            if same(a, b):
                return
        # apply the equalities of the cell
        for _ in range(6):
            done = True
            for v, i in asg.items():
                key, n = VARS[v]
                if key[0] == "sgn" and i == 1:
                    s = linear_elim(dict(key[1]))
                    if s is not None:
                        S = Subst(eng, s)
                        a2, b2 = S(a), S(b)
                        asg2, ex = resub(S, asg)
                        if asg2 is False:
                            return
                        g = g_and(S(g), ex)
                        if g is False:
                            return
                        if not (same(a2, a) and same(b2, b)) or asg2 != asg:
                            a, b, asg, done = a2, b2, asg2, False
                            if same(a, b):
                                return
                            break
            if done:
                break
        else:
            pass
        if not isinstance(a, D) and not isinstance(b, D) and not isinstance(g, D):
            if isinstance(a, V) and isinstance(b, V) and (a.tag == b.tag) and shaped(eng, a, b):
                sub = Cmp(eng, self.limit, asg, self.common)
                sub.go(a, b, True, path)
                self.diffs += sub.diffs
                self.unknown += sub.unknown
                return
        else:
            sub = Cmp(eng, self.limit, asg, self.common)
            sub.leaf(a, b, g, path)
            self.diffs += sub.diffs
            self.unknown += sub.unknown
            return
        # sqrt-normal and quadratic equalities are not decided
        if same(a, b) or not feasible(asg):
            return
        if isinstance(a, Rat) and isinstance(b, Rat) and (forced_equal(a, b, asg) or multiple(a - b, asg)):
            return
        if not feasible_products(asg):
            return
        if nonlinear_equalities(asg) > 1:
            self.unknown.append((path, "rests on several non-linear equalities: " + short(a, 200)))
            return
        if is_opaque(a) or cell_opaque(asg):
            if os.environ.get("VERIF_CELL"):
                for v, i in asg.items():
                    print(i, str(VARS[v])[:600])
            self.unknown.append((path, "rests on a construct outside the abstraction: " + short(a, 200)))
            return
        if seqish(a) and seqish(b):
            # equal lengths and equal elements
            sub = Cmp(eng, self.limit, asg, self.common)
            la = eng.seq_len(a)
            sub.go(la, eng.seq_len(b), True, path + "[count]")
            if not sub.diffs and not sub.unknown:
                k = A(atom(("ek", len(path)), "int", True))
                sub.go(eng.seq_at(a, k), eng.seq_at(b, k), cmp_lt(k, la), path + "[each]")
            self.diffs += sub.diffs
            self.unknown += sub.unknown
            return
        weak = seqish(a) or seqish(b) or bool((quantified(a) | quantified(b) | cell_quantified(asg, set())) - self.common)
        self.diffs.append(Diff(path, a, b, dict(asg), weak))


def shaped(eng, a, b):
    """do go()'s structural rules apply to the pair?"""
    if a.tag in ("lit", "cat"):
        return len(a.parts[0]) == len(b.parts[0]) and all(
            a.tag == "lit" or same(eng.seq_len(x), eng.seq_len(y)) for x, y in zip(a.parts[0], b.parts[0]))
    if a.tag in ("struct", "variant"):
        return len(a.parts[1]) == len(b.parts[1])
    return a.tag in ("enum", "comp")


def seqish(v):
    return isinstance(v, V) and v.tag in ("symseq", "lit", "comp", "cat", "upd", "sub", "symarr")


def cell_opaque(asg):
    for v in asg:
        key = VARS[v][0]
        if key[0] in ("bool", "enum"):
            if head(key[1]) in OPAQUE_HEADS or is_opaque(key[1]):
                return True
        elif is_opaque(Rat(dict(key[1]))):
            return True
    return False


def resub(S, asg):
    """the cell after a substitution, and the conditions on it that are no longer single
    variables; (False, ..) if contradictory"""
    out = {}
    ex = True
    for v, i in asg.items():
        nv = S.var(v)
        if nv is None:
            if v in out and out[v] != i:
                return False, True
            out[v] = i
            continue
        # nv: diagram with leaf child indices
        lf = [x for x in leaves(nv) if x is not UNDEF]
        if all(x != C(i) for x in lf):
            return False, True
        if not isinstance(nv, D):
            continue
        # single-variable renamings stay in the cell, others become its guard
        if all(not isinstance(c, D) for c in nv.ch):
            js = [j for j, c in enumerate(nv.ch) if c == C(i)]
            if len(js) == 1:
                if nv.var in out and out[nv.var] != js[0]:
                    return False, True
                out[nv.var] = js[0]
                continue
        ex = g_and(ex, lift(lambda r: r is not UNDEF and r == C(i), nv))
        if ex is False:
            return False, True
    return out, ex


def fname(eng, adt, i):
    a = eng.crate.adts.get(adt)
    if a is not None and a["kind"] == "Struct" and i < len(a["variants"][0]["f"]):
        return a["variants"][0]["f"][i]["n"]
    if adt in ("V2", "V3"):
        return "xyz"[i]
    return str(i)


def zc(eng, v):
    return v


def compare(eng, got, want, guard=True):
    return Cmp(eng).run(got, want, guard)


def implies(eng, guard, claim):
    """every feasible cell of guard satisfies claim (both diagrams over booleans)"""
    c = Cmp(eng)
    c.leaf(g_or(g_not(guard), claim), True, True, "condition")
    return c
