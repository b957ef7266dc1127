"""Error discipline: every step that can fail is assumed to fail, and its failure is followed along every
path of the control flow graph (typestate over MIR places).  The function must then return an error.

The domain of a place: "E" a Result holding an error, "B" ControlFlow::Break, "R" the residual of `?`,
"P" the error itself, "N" Option::None, ("I", n) a known number, ("&", place) a reference, "K" anything
known not to be an error; a place without entry is unknown."""
import ctx

ERRS = ("LinestringError", "io::Error", "error::Error")
PANICS = ("panicking::", "unwrap_failed", "expect_failed", "begin_panic", "panic_fmt", "process::")
MAXSTATES = 4000


def res_err(t):
    """error type of a Result type the discipline is about"""
    if t.get("k") == "adt" and t["n"].endswith("result::Result") and len(t["a"]) == 2:
        e = t["a"][1]
        n = str(e)
        if any(x in n for x in ERRS) and "fmt::Error" not in n:
            return n
    return None


def callee(t):
    f = t["f"].get("fn") or {}
    return f.get("r") or f.get("n") or "", f


def library(crate):
    return {n: f for n, f in crate.fns.items() if f.name.startswith("crate::") or n.startswith("crate::")}


class Flow:
    def __init__(self, crate):
        self.fns = library(crate)
        self.fallible, self.sums = {}, {}
        self.functions = set()

    # ---- which functions can return an error at all
    def can_fail(self, f, seen=()):
        if f.name in self.fallible:
            return self.fallible[f.name]
        if f.name in seen:
            return False
        r = False
        for b in f.blocks:
            if b["c"]:
                continue
            for s in b["s"]:
                rv = s.get("rv")
                if rv and rv["k"] == "agg" and rv.get("vn") == "Err":
                    r = True
                if rv and rv["k"] == "use" and "pl" not in rv["o"] and res_err(rv["o"].get("ty", {})):
                    r = True
            t = b["t"]
            if t["k"] == "call" and self.source(f, t, seen + (f.name,)):
                r = True
            if t["k"] == "call" and callee(t)[1].get("m") == "from_residual":
                r = True
        if not seen:
            self.fallible[f.name] = r
        return r

    def source(self, f, t, seen=()):
        """the call may produce a new error"""
        if t["t"] is None:
            return False
        ty = f.locals[t["d"]["l"]] if not t["d"]["p"] else None
        if ty is None or not res_err(ty):
            return False
        n, fn = callee(t)
        if fn.get("m") in ("from_residual", "branch", "from_output"):
            return False
        for a in t["args"]:
            at = f.locals[a["pl"]["l"]] if "pl" in a and not a["pl"]["p"] else a.get("ty", {})
            if any(x in str(at) for x in ("Stderr", "Stdout", "StderrLock", "StdoutLock")):
                return False                      # talking to the console is no step of an operation
            if at.get("k") == "adt" and at["n"].endswith("result::Result") and n not in self.fns:
                return False
        g = self.fns.get(n)
        return self.can_fail(g, seen) if g is not None else True

    # ---- following an error
    def key(self, st, pl):
        """(local, path) of a place, through known references"""
        l, path = pl["l"], ()
        for e in pl["p"]:
            if e[0] == "*":
                v = st.get((l, path))
                if isinstance(v, tuple) and v[0] == "&":
                    l, path = v[1]
                else:
                    return None
            elif e[0] in ("f", "d"):
                path = path + ((e[0], e[1]),)
            else:
                return None
        return (l, path)

    def get(self, st, k):
        if k is None:
            return None
        v = st.get(k)
        if v is not None:
            return v
        l, path = k
        # the error inside a Result known to hold one
        for i in range(len(path), -1, -1):
            v = st.get((l, path[:i]))
            if v == "E" and ("d", 1) in path[i:]:
                return "P"
            if v in ("B",) and ("d", 1) in path[i:]:
                return "R"
            if v == "R" and len(path) > i:
                return "P"
            if v is not None:
                return None
        return None

    def put(self, st, k, v):
        if k is None:
            return
        for q in [q for q in st if q[0] == k[0] and q[1][:len(k[1])] == k[1]]:
            del st[q]
        if v is not None:
            st[k] = v

    def val(self, st, o):
        if "pl" in o:
            return self.get(st, self.key(st, o["pl"]))
        if "int" in o:
            return ("I", int(o["int"]))
        return "K"

    def copy(self, st, dst, o):
        if "pl" in o:
            k = self.key(st, o["pl"])
            v = self.get(st, k)
            sub = {} if k is None else {q[1][len(k[1]):]: w for q, w in st.items() if q[0] == k[0] and q[1][:len(k[1])] == k[1] and q != k}
            self.put(st, dst, v)
            if dst is not None:
                for p, w in sub.items():
                    st[(dst[0], dst[1] + p)] = w
        else:
            self.put(st, dst, self.val(st, o))

    def rvalue(self, st, dst, rv):
        k = rv["k"]
        if k == "use" or k == "cast":
            return self.copy(st, dst, rv["o"])
        if k in ("ref", "rawptr"):
            q = self.key(st, rv["pl"])
            return self.put(st, dst, ("&", q) if q is not None else None)
        if k == "discr":
            v = self.get(st, self.key(st, rv["pl"]))
            return self.put(st, dst, ("I", 1) if v in ("E", "B", "R", "S") else ("I", 0) if v == "N" else None)
        if k == "agg":
            vals = [self.val(st, o) for o in rv["ops"]]
            subs = []
            for o in rv["ops"]:
                q = self.key(st, o["pl"]) if "pl" in o else None
                subs.append({} if q is None else {r[1][len(q[1]):]: w for r, w in st.items() if r[0] == q[0] and r[1][:len(q[1])] == q[1] and r != q})
            vn = rv.get("vn")
            self.put(st, dst, "E" if vn == "Err" else "B" if vn == "Break" and any(v in ("E", "R", "P") for v in vals) else
                     "N" if vn == "None" else "K")
            if dst is not None and vn != "Err":
                live = False
                for i, v in enumerate(vals):
                    w = () if vn is None else (("d", rv.get("vi", rv.get("v", 0))),)
                    if v in ("E", "R", "B", "P") or isinstance(v, tuple) and v[0] == "&":
                        st[(dst[0], dst[1] + w + (("f", i),))] = v
                        live = True
                    for p, x in subs[i].items():
                        st[(dst[0], dst[1] + w + (("f", i),) + p)] = x
                        live = True
                if live:
                    st.pop(dst, None)
            return
        if k == "un" and rv.get("op") == "Not":
            v = self.val(st, rv["o"] if "o" in rv else rv["a"])
            return self.put(st, dst, ("I", 1 - v[1]) if isinstance(v, tuple) and v[0] == "I" and v[1] in (0, 1) else None)
        if k == "bin" and rv.get("op") in ("Eq", "Ne"):
            a, b = self.val(st, rv["a"]), self.val(st, rv["b"])
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "I":
                return self.put(st, dst, ("I", int((a[1] == b[1]) == (rv["op"] == "Eq"))))
        self.put(st, dst, None)

    def deref(self, st, v):
        while isinstance(v, tuple) and v[0] == "&":
            v = self.get(st, v[1])
        return v

    def handler(self, f, t, i):
        """a closure given the error: does it end in a panic, or drop what it was given"""
        a = t["args"][i] if i < len(t["args"]) else {}
        ty = f.locals[a["pl"]["l"]] if "pl" in a and not a["pl"]["p"] else a.get("ty", {})
        g = self.fns.get(ty.get("n"))
        if g is None:
            return None, True
        if not any(b["t"]["k"] == "return" and not b["c"] for b in g.blocks):
            return "panic"
        if "'l': 1," in str([b["s"] for b in g.blocks]) + str([b["t"] for b in g.blocks]):
            return None, True                 # it may note the error in what it captures
        if res_err(g.locals[0]):
            return None, True
        return "K", False

    def call(self, f, st, t, depth):
        """effect of a call on the state; returns 'panic' or (value, escaped)"""
        n, fn = callee(t)
        m = fn.get("m") or n.rsplit("::", 1)[-1]
        vs = [self.val(st, a) for a in t["args"]]
        ds = [self.deref(st, v) for v in vs]
        a0 = ds[0] if ds else None
        if m == "branch" and "Try" in (fn.get("trait") or n):
            return ("B" if a0 == "E" else None), False
        if m == "from_residual":
            return "E", False
        onres = "result::Result" in n or "result::Result" in str(fn.get("a", ""))[:60]
        if a0 == "E":
            if m in ("map", "map_err", "and_then", "and", "as_ref", "as_mut", "clone", "inspect", "inspect_err", "into", "from", "copied", "cloned", "flatten"):
                return "E", False
            if m == "is_err":
                return ("I", 1), False
            if m == "is_ok" or m == "is_ok_and":
                return ("I", 0), False
            if m == "ok":
                return "N", False
            if m in ("unwrap", "expect") and onres:
                return "panic"
            if m in ("unwrap_or", "unwrap_or_default", "map_or", "unwrap_or_else", "map_or_else", "or"):
                if m in ("unwrap_or_else", "map_or_else"):
                    return self.handler(f, t, 1)
                return "K", False
            if m in ("unwrap_err", "expect_err", "err"):
                return "P", False
            if m == "drop" or m == "drop_in_place":
                return "K", False
        if a0 == "P" and m in ("into", "from"):
            return "P", False
        g = self.fns.get(n)
        hot = [i for i, v in enumerate(ds) if v in ("E", "B", "R")]
        nested = any("pl" in a and any(q[0] == a["pl"]["l"] and v in ("E", "R", "B") and q[1] for q, v in st.items()) for a in t["args"])
        if hot and g is not None and depth < 4 and len(hot) == 1 and vs[hot[0]] == "E":
            ok, _, _ = self.follow(g, 0, {(hot[0] + 1, ()): "E"}, depth + 1)
            return ("E", False) if ok == "error" else (None, True)
        if hot or nested:
            return None, m not in ("drop", "drop_in_place", "fmt")
        return None, False

    def follow(self, f, b0, st0, depth=0):
        """(verdict, detail, states): every path from block b0 with the failure in st0"""
        seen, work = set(), [(b0, st0, False)]
        bad, unknown, returns = None, None, 0
        while work:
            b, st, esc = work.pop()
            sig = (b, esc, tuple(sorted(st.items(), key=str)))
            if sig in seen:
                continue
            seen.add(sig)
            if len(seen) > MAXSTATES:
                return "unknown", "more than %d states" % MAXSTATES, len(seen)
            st = dict(st)
            blk = f.blocks[b]
            for s in blk["s"]:
                if s["k"] == "=":
                    self.rvalue(st, self.key(st, s["pl"]), s["rv"])
            t = blk["t"]
            k = t["k"]
            if k == "goto" or k == "drop" or k == "assert":
                if t.get("t") is not None:
                    work.append((t["t"], st, esc))
            elif k == "switch":
                v = self.val(st, t["o"])
                if isinstance(v, tuple) and v[0] == "I":
                    nx = [x for c, x in t["ts"] if int(c) == v[1]] or [t["else"]]
                else:
                    nx = [x for _, x in t["ts"]] + [t["else"]]
                for x in set(nx):
                    if f.blocks[x]["t"]["k"] != "unreachable":
                        work.append((x, dict(st), esc))
            elif k == "call":
                r = self.call(f, st, t, depth)
                n = callee(t)[0]
                if r == "panic":
                    bad = bad or ("the error becomes a panic (%s)" % n.rsplit("::", 1)[-1], t.get("sp"))
                    continue
                if t["t"] is None:
                    if any(p in n for p in PANICS):
                        bad = bad or ("the error becomes a panic", t.get("sp"))
                    continue
                v, e = r
                d = self.key(st, t["d"])
                self.put(st, d, v)
                work.append((t["t"], st, esc or e))
            elif k == "return":
                returns += 1
                v = self.get(st, (0, ()))
                if v in ("E", "R", "B"):
                    continue
                if any(q[0] == 0 and w in ("E", "R", "B") for q, w in st.items()):
                    continue          # handed on inside the returned value
                if esc:
                    unknown = unknown or "the result is handed to code the analysis does not know"
                else:
                    bad = bad or ("the function returns without an error", None)
        if bad:
            return "swallowed", bad, len(seen)
        if unknown:
            return "unknown", unknown, len(seen)
        return "error", "", len(seen)


def short(n):
    return n.replace("crate::", "")


def closures(t, out):
    if isinstance(t, dict):
        if t.get("k") == "closure":
            out.append(t["n"])
        for v in t.values():
            closures(v, out)
    elif isinstance(t, list):
        for v in t:
            closures(v, out)
    return out


def dropped(fl, fn, f, t):
    """the iterator handed to flatten yields results: its type, or the closure that makes its items, names one"""
    ts = [fn.get("a")] + [f.locals[a["pl"]["l"]] for a in t["args"][:1] if "pl" in a]
    cl = [fl.fns[n].locals[0] for n in closures(ts, []) if n in fl.fns]
    return any("result::Result" in str(x) and any(e in str(x) for e in ERRS) for x in ts[1:] + cl) or any(
        res_err(x) for x in (fn.get("a") or []) if isinstance(x, dict))


def spans(f):
    return f.span or ""


def errors(crate):
    """one obligation per function with steps that can fail"""
    fl = Flow(crate)
    obs = []
    for name in sorted(fl.fns):
        f = fl.fns[name]
        steps, states, viol, unk = 0, 0, [], []
        for i, b in enumerate(f.blocks):
            t = b["t"]
            if b["c"] or t["k"] != "call":
                continue
            # a sequence of results flattened into their values drops the errors
            n0, fn0 = callee(t)
            if fn0.get("m") in ("flatten", "flatten_iter") and "Option" not in n0 and "Result<" not in n0 and dropped(fl, fn0, f, t):
                steps += 1
                viol.append("the errors in a sequence of results are dropped by flatten at %s" % t.get("sp"))
            # Result::ok and the like, used as a function value on the results of an iterator
            for a in t["args"]:
                ty = a.get("ty") or {}
                if ty.get("k") == "fndef" and any(ty.get("n", "").endswith("Result::<T, E>::" + x) for x in ("ok", "unwrap_or_default")) and any(
                        x in str(ty.get("a")) for x in ERRS):
                    steps += 1
                    viol.append("results of a sequence are filtered by %s at %s" % (ty["n"].rsplit("::", 1)[-1], t.get("sp")))
            if not fl.source(f, t):
                continue
            steps += 1
            v, why, n = fl.follow(f, t["t"], {fl.key({}, t["d"]): "E"})
            states += n
            what = short(callee(t)[0])
            if v == "swallowed":
                viol.append("when %s fails, %s%s (call at %s)" % (what, why[0], " at %s" % why[1] if why[1] else "", t.get("sp")))
            elif v == "unknown":
                unk.append("%s: %s" % (what, why))
        for j in range(1, f.argc + 1):
            if res_err(f.locals[j]):
                steps += 1
                v, why, n = fl.follow(f, 0, {(j, ()): "E"})
                states += n
                if v == "swallowed":
                    viol.append("when parameter %d is an error, %s" % (j, why[0]))
                elif v == "unknown":
                    unk.append("parameter %d: %s" % (j, why))
        if steps:
            obs.append(ctx.Ob("flow/" + short(f.disp or f.name), "each of its %d steps that can fail makes it return an error" % steps, spans(f),
                              "violated" if viol else "undecided" if unk else "holds", viol + unk, states, [f.disp or f.name]))
    return obs


# ---- a buffered writer is flushed before success is reported
WRITERS = ("BufWriter", "LineWriter")


def is_writer(t):
    return t.get("k") == "adt" and t["n"].rsplit("::", 1)[-1] in WRITERS


class Flush:
    def __init__(self, crate):
        self.fns = library(crate)

    def aliases(self, f, seed):
        al = set(seed)
        ch = True
        while ch:
            ch = False
            for b in f.blocks:
                for s in b["s"]:
                    if s["k"] != "=" or s["pl"]["p"]:
                        continue
                    rv = s["rv"]
                    src = rv.get("pl") if rv["k"] in ("ref", "rawptr") else rv["o"].get("pl") if rv["k"] in ("use", "cast") and isinstance(rv.get("o"), dict) else None
                    if src and src["l"] in al and all(e[0] == "*" for e in src["p"]) and s["pl"]["l"] not in al:
                        al.add(s["pl"]["l"])
                        ch = True
                t = b["t"]
                if t["k"] == "call" and not t["d"]["p"] and callee(t)[1].get("m") in ("by_ref", "borrow_mut", "as_mut", "deref_mut") and any(
                        "pl" in a and a["pl"]["l"] in al for a in t["args"]) and t["d"]["l"] not in al:
                    al.add(t["d"]["l"])
                    ch = True
        return al

    def dirty_after(self, f, seed, dirty0, start=0, depth=0):
        """blocks returning success with unflushed output"""
        al = self.aliases(f, seed)
        seen, work, bad = set(), [(start, dirty0, False)], []
        while work:
            b, dirty, failed = work.pop()
            if (b, dirty, failed) in seen:
                continue
            seen.add((b, dirty, failed))
            blk = f.blocks[b]
            for s in blk["s"]:
                if s["k"] == "=" and not s["pl"]["p"] and s["pl"]["l"] == 0 and s["rv"]["k"] == "agg":
                    failed = s["rv"].get("vn") == "Err"
            t = blk["t"]
            if t["k"] == "call":
                m = callee(t)[1].get("m") or callee(t)[0].rsplit("::", 1)[-1]
                if m == "from_residual" and t["d"]["l"] == 0:
                    failed = True
                hit = [i for i, a in enumerate(t["args"]) if "pl" in a and a["pl"]["l"] in al and all(e[0] == "*" for e in a["pl"]["p"])]
                if hit:
                    g = self.fns.get(callee(t)[0])
                    if m in ("flush", "into_inner", "sync_all", "sync_data"):
                        dirty = False
                    elif g is not None and depth < 4:
                        dirty = bool(self.dirty_after(g, {hit[0] + 1}, dirty, 0, depth + 1)[0])
                    elif m in ("by_ref", "get_ref", "get_mut", "buffer", "capacity", "deref_mut", "deref", "borrow_mut", "as_mut", "as_ref", "drop"):
                        pass
                    else:
                        dirty = True
                if t["t"] is not None:
                    work.append((t["t"], dirty, failed))
            elif t["k"] == "switch":
                for x in {x for _, x in t["ts"]} | {t["else"]}:
                    work.append((x, dirty, failed))
            elif t["k"] in ("goto", "drop", "assert"):
                if t.get("t") is not None:
                    work.append((t["t"], dirty, failed))
            elif t["k"] == "return" and dirty and not failed:
                bad.append(b)
        return bad, len(seen)


def flushed(crate):
    fl = Flush(crate)
    obs = []
    for name in sorted(fl.fns):
        f = fl.fns[name]
        seed = {l for l in range(f.argc + 1, len(f.locals)) if is_writer(f.locals[l])}
        if not seed:
            continue
        bad, n = fl.dirty_after(f, seed, False)
        obs.append(ctx.Ob("flush/" + short(f.disp or f.name), "what was written to a buffered file is flushed before success is reported", spans(f),
                          "violated" if bad else "holds", ["a path from a write to a successful return has no flush"] if bad else [], n, [f.disp or f.name]))
    return obs


def opens(crate):
    """the anchor: the library still writes a file somewhere, through a step that can fail"""
    fl = Flow(crate)
    hits = [short(f.disp or f.name) for f in fl.fns.values() for b in f.blocks
            if not b["c"] and b["t"]["k"] == "call" and callee(b["t"])[0].startswith("std::fs::")]
    return [ctx.Ob("flow/anchor", "the file is created by a step whose failure is visible", "", "holds" if hits else "violated",
                   [] if hits else ["no call that creates a file was found"], 0, sorted(set(hits)))]
