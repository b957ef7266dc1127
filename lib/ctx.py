"""Specification obligations: pairs of specification functions over the public interface
(NAME__got / NAME__want / NAME__pre) or boolean properties (NAME__holds / NAME__pre), all
interpreted by the same abstract interpreter; see DESIGN.md."""
import re, time, signal, os, hashlib
import vg, decide
from vg import Engine, UNDEF
from dd import show, D, V, is_tag, g_or, g_not
import dd


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


signal.signal(signal.SIGPROF, _alarm)


class Ob:
    """one obligation"""

    def __init__(self, name, rule, where, verdict, detail=(), cells=0, fns=(), wall=0.0, key=None):
        self.name, self.rule, self.where, self.verdict = name, rule, where, verdict
        self.detail, self.cells, self.fns, self.wall = list(detail), cells, list(fns), wall
        self.key = key or name

    def full(self):
        return dict(self.json(), key=self.key)

    def json(self):
        d = {"obligation": self.name, "rule": self.rule, "construct": self.where, "verdict": self.verdict,
             "cells_compared": self.cells, "functions": self.fns, "wall_s": round(self.wall, 2)}
        if self.detail:
            d["detail"] = self.detail
        return d


def spec_docs(path):
    """name -> (doc text, options) from the specification source"""
    out = {}
    doc, opts = [], {}
    for ln in open(path):
        m = re.match(r"\s*///\s?(.*)", ln)
        if m:
            doc.append(m.group(1).strip())
            continue
        m = re.match(r"\s*//\s*@(\w+)\s*(.*)", ln)
        if m:
            opts.setdefault(m.group(1), []).append(m.group(2).strip())
            continue
        m = re.match(r"\s*(?:pub )?fn (\w+)", ln)
        if m:
            out[m.group(1)] = (" ".join(doc), opts)
            doc, opts = [], {}
        elif ln.strip() and not ln.strip().startswith("#["):
            if not ln.startswith("//"):
                doc, opts = [], {}
    return out


def run_fn(crate, fn, stop, names, guard=True, inst=None):
    e = Engine(crate, stop)
    e.inst = inst
    rv, st, g, args = e.analyse(fn, names, guard)
    return e, rv, st, g, args


def called(crate, fn):
    """crate-local functions of the library reachable from a specification function"""
    seen, st = [], [fn]
    done = set()
    while st:
        f = st.pop()
        if f.name in done:
            continue
        done.add(f.name)
        for b in f.blocks:
            t = b["t"]
            if t["k"] == "call" and "fn" in t["f"]:
                r = t["f"]["fn"]
                for nm in (r.get("r"), r["n"]):
                    g = crate.fns.get(nm) if nm else None
                    if g is not None:
                        if g.name in crate.spec:
                            st.append(g)
                        elif g not in seen:
                            seen.append(g)
                        break
    return seen


def run_spec(crate, module, srcdir, only=None, limit=100, log=None):
    """all obligations of one specification module"""
    docs = spec_docs(os.path.join(srcdir, module + ".rs"))
    names = spec_parts(crate, module)
    obs = []
    for nm, parts in sorted(names.items()):
        if only and nm not in only:
            continue
        obs.append(one(crate, module, nm, parts, docs, limit))
        if log:
            log(obs[-1])
    return obs


def spec_names(crate, module):
    return sorted(spec_parts(crate, module))


def spec_parts(crate, module):
    pre = "spec::%s::" % module
    names = {}
    for n, f in crate.spec.items():
        if n.startswith(pre) and f.kind != "Closure":
            s = n[len(pre):]
            m = re.match(r"^(\w+)__(got|want|pre|holds|total)$", s)
            if m:
                names.setdefault(m.group(1), {})[m.group(2)] = f
    return names


def one(crate, module, nm, parts, docs, limit):
    lead = parts.get("got") or parts.get("holds") or parts.get("total")
    dn = lead.name.rsplit("::", 1)[-1]
    rule, opts = docs.get(dn, ("", {}))
    t0 = time.time()
    fns = called(crate, lead)
    where = "; ".join("%s (%s)" % (f.disp, f.span.rsplit(":", 1)[0]) for f in fns[:4])
    ob = Ob("%s/%s" % (module, nm), rule, where, "undecided", fns=[f.disp for f in fns])
    stop = stops(crate, module, opts)
    import models
    models.SPLIT = "split" in opts
    lim = int(opts.get("limit", [limit])[0])
    fixed = "fixed" in opts       # the requirement is stated for inputs of the listed sizes only
    if not fixed:
        timed(ob, lim, lambda: attempt(crate, ob, parts, lead, stop, "assume" in opts, None))
    if ob.verdict in ("undecided", "maybe"):
        seqs = [i for i in range(lead.argc) if seq_type(lead.locals[i + 1])]
        sizes = [[int(y) for y in x.split(",")] for x in opts.get("sizes", ["0 1 2 3 4 5 6"])[0].split()] if seqs else [[]]
        general = ob.verdict
        end = time.process_time() + (400 if fixed else 200)
        held = []
        for z in sizes:
            if time.process_time() > end:
                break
            inst = {"a%d" % i: z[j % len(z)] for j, i in enumerate(seqs)} or {"": 0}
            o2 = Ob(ob.name, ob.rule, ob.where, "undecided")
            timed(o2, lim if fixed else min(100 if "limit" in opts else 40, lim), lambda: attempt(crate, o2, parts, lead, stop, "assume" in opts, inst))
            ob.cells += o2.cells
            if o2.verdict == "violated":
                ob.verdict, ob.detail = "violated", [at(z) + d for d in o2.detail]
                break
            if o2.verdict == "holds":
                held.append(" and ".join(map(str, z)))
            elif fixed:
                ob.detail = [at(z) + (o2.detail or [o2.verdict])[0]]
                break
        else:
            if fixed:
                ob.verdict = "holds"
                if seqs:
                    ob.rule += " [for inputs of %s elements]" % ", ".join(held)
            elif general == "maybe":
                ob.detail = ["the result is computed by another search or fold; no difference for inputs of %s elements: %s" % (
                    ", ".join(held) or "any tried number of", (ob.detail or [""])[0])]
        if ob.verdict == "maybe":
            ob.verdict = "undecided"
    ob.wall = time.time() - t0
    return ob


def stops(crate, module, opts):
    stop = {}      # functions left uninterpreted: disp -> (name, symmetric)
    for s in opts.get("stop", []):
        for pat in s.split():
            stop.update({f.disp: (f.disp, False) for f in crate.fns.values() if f.disp.endswith(pat) and f.kind != "Closure"})
    for s in opts.get("alias", []):
        # a library function and a function of the specification stand for the same symmetric function
        pat, own = s.split()
        lib = [f.disp for f in crate.fns.values() if f.disp.endswith(pat) and f.kind != "Closure" and f.name not in crate.spec]
        ours = [f.disp for n, f in crate.spec.items() if n == "spec::%s::%s" % (module, own)]
        if lib and ours:
            stop.update({d: (pat, True) for d in lib + ours})
    return stop


def at(z):
    return "for %s elements: " % " and ".join(map(str, z)) if z else ""


def seq_type(t):
    while t["k"] == "ref":
        t = t["t"]
    return t["k"] == "slice" or t["k"] == "adt" and t["n"] == vg.VEC


def timed(ob, lim, f):
    signal.setitimer(signal.ITIMER_PROF, lim)      # processor time: the verdict must not depend on what else runs
    try:
        f()
    except Timeout:
        ob.detail = ["analysis exceeded %d s" % lim]
    except (vg.Unsupported, RecursionError, ZeroDivisionError, KeyError, NameError, IndexError, ValueError, AttributeError,
            TypeError, AssertionError) as ex:
        ob.detail = ["analysis stopped: %s: %s" % (type(ex).__name__, str(ex)[:300])]
        if os.environ.get("VERIF_DEBUG"):
            import traceback
            traceback.print_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def attempt(crate, ob, parts, lead, stop, assume, inst):
    """decide one obligation, for sequences of any size or of the given sizes"""
    an = ["a%d" % i for i in range(lead.argc)]
    guard = True
    if "pre" in parts:
        ep, pv, _, _, _ = run_fn(crate, parts["pre"], stop, an, True, inst)
        guard = decide.prune(pv)
        if guard is False:
            ob.verdict = "holds" if inst else "undecided"
            return
    # @assume: analyse the entry point under its precondition from the start
    e, got, st, g, args = run_fn(crate, lead, stop, an, guard if assume else True, inst)
    e.spec_unknown = list(e.unknown)
    c = decide.Cmp(e)
    want = True
    if "want" in parts:
        ew, want, stw, gw, _ = run_fn(crate, parts["want"], stop, an, True, inst)
        if gw is False:
            ob.verdict, ob.detail = "undecided", ["the reference panics"]
            return
    if "total" in parts:
        n0 = len(e.panics)
        for bad, kind, sp, fn in e.panics:
            cc = decide.Cmp(e)
            cc.go(g_or(g_not(guard), g_not(bad)), True, True, "%s in %s" % (kind, fn))
            for d in cc.diffs:
                d.got = kind
            c.diffs += cc.diffs
            c.unknown += cc.unknown
            c.cells += cc.cells
        if any("loop" in u for u in e.unknown):
            c.unknown.append(("", "unknown construct"))
        ob.cells = c.cells + n0
        ob.verdict = {"equal": "holds", "differs": "violated", "unknown": "undecided", "maybe": "maybe"}[c.verdict()]
        ob.detail = ["%s: can panic when %s" % (d.path, d.text().split(" when ", 1)[-1]) for d in c.diffs] + ["%s: %s" % u for u in c.unknown[:3]]
        return
    if g is False:
        ob.verdict = "violated"
        ob.detail = ["every path of the computation panics"]
        return
    if "holds" in parts:
        c.run(got, True, guard)
    else:
        c.run(got, want, guard)
        for r in st:
            if r[0] == "ext" and mutable(e, lead, r):
                w = stw.get(r)
                if w is None:
                    w = ew.root(stw, r) if r[1] in ew.exttypes else None
                if w is not None:
                    c.go(decide.zc(e, st[r]), decide.zc(e, w), guard, "(*%s)" % dd.kname(r[1]))
    ob.cells = c.cells
    # panics that the reference does not have
    ob.verdict = {"equal": "holds", "differs": "violated", "unknown": "undecided", "maybe": "maybe"}[c.verdict()]
    ob.detail = [d.text() for d in sorted(c.diffs, key=lambda d: d.weak)] + ["%s: %s" % u for u in c.unknown[:3]]


def mutable(e, fn, r):
    """is external root r reached through a &mut parameter of fn?"""
    k = r[1]
    if len(k) >= 2 and isinstance(k[0], str) and re.fullmatch(r"a\d+", k[0]):
        i = int(k[0][1:])
        t = fn.locals[i + 1]
        return t["k"] == "ref" and t.get("mut", False)
    return True
