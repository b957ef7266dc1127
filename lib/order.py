"""Same arguments, same result: nothing that differs from run to run reaches a result.

What differs from run to run: the order in which hashed collections are walked, what several threads
deliver first, clocks, environment, random numbers, addresses, and state kept between calls.  The walks are
found by their type (an iterator over a hashed collection, however wrapped) and followed to what consumes
them: a consumer for which the order makes no difference (count, all, a set, ...), a sort, or a loop whose
effects commute ends the walk; a sequence built in that order must be sorted before anything else reads it."""
import ctx
from flow import callee, library, short

WALKS = ("hash_map::", "hash_set::", "hashbrown::", "iter_bridge::IterBridge")
NOWALK = ("Entry", "HashMap", "HashSet", "DefaultHasher", "RandomState")
POSITIONAL = ("Enumerate", "Take", "Skip", "Zip", "StepBy", "Scan", "TakeWhile", "SkipWhile", "MapWhile", "Tuples", "TupleWindows",
              "CircularTupleWindows", "Interleave", "Intersperse", "Chunks", "Batching", "Dedup", "WithPosition", "ArrayChunks", "Coalesce")
FREE = {"count", "len", "any", "all", "min", "max", "is_empty", "size_hint", "contains", "drop", "is_some", "is_none", "all_unique", "sorted", "sorted_unstable",
        "sorted_by", "sorted_by_key", "sorted_unstable_by", "sorted_unstable_by_key", "sorted_by_cached_key", "all_equal", "counts", "into_grouping_map", "fmt"}
FREE_POS = {"count", "len", "is_empty", "size_hint", "drop"}
SETS = ("HashMap", "HashSet", "BTreeMap", "BTreeSet", "AHashMap", "AHashSet", "Vob", "BitSet")
SEQS = ("Vec", "VecDeque", "String", "SmallVec", "LinkedList", "Box", "Rc", "Arc", "ArrayVec", "BinaryHeap")
ORDERED = {"position", "last", "nth", "join", "partition", "unzip", "find_position", "rposition", "next_back", "format", "format_with", "max_set", "try_collect",
           "collect_tuple", "next_tuple", "exactly_one", "cmp", "partial_cmp", "eq", "ne", "lt", "le", "gt", "ge"}
PICKS = {"find_any", "find_map_any", "position_any", "while_some", "reduce_with_any"}
SORTS = {"sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key", "sort_by_cached_key", "par_sort", "par_sort_unstable",
         "par_sort_by", "par_sort_by_key", "par_sort_unstable_by", "par_sort_unstable_by_key", "clear"}
NEUTRAL = {"len", "is_empty", "reserve", "capacity", "with_capacity", "contains", "shrink_to_fit", "drop"}
MORE = {"push", "extend", "append", "insert", "extend_from_slice", "push_back", "push_front", "push_str"}
WRITES = {"write", "write_fmt", "write_all", "write_str", "write_char"}
SAME = {"deref", "deref_mut", "as_mut_slice", "as_slice", "as_mut", "as_ref", "borrow", "borrow_mut", "into_iter", "iter", "iter_mut", "by_ref", "into_boxed_slice",
        "into_vec", "to_vec", "clone", "copied", "cloned", "drain", "from", "into", "unwrap", "expect", "collect", "map", "filter", "rev", "chain",
        "zip", "enumerate", "skip", "take", "filter_map", "flat_map", "flatten", "inspect", "peekable", "step_by", "collect_vec", "fuse", "split_off", "to_owned"}
CLOCKS = ("time::Instant::now", "time::SystemTime::now", "env::var", "env::args", "env::temp_dir", "env::current_dir", "thread::current", "process::id",
          "rand::", "getrandom::", "fastrand::", "current_thread_index", "ThreadId", "Hasher>::finish", "BuildHasher::hash_one", "Hasher::finish")
COUNTS = ("current_num_threads", "available_parallelism")
SILENT = ("std::io::_print", "std::io::_eprint", "std::fmt::", "core::fmt::", "Arguments")
MUTEX = ("::Mutex", "::RwLock", "atomic::Atomic", "sync::mpsc", "::DashMap", "OnceLock", "OnceCell")


def tys(t):
    """type names in a type"""
    out = []

    def go(x):
        if isinstance(x, dict):
            if x.get("k") in ("adt", "alias", "closure", "fndef"):
                out.append(x.get("n", ""))
            if x.get("k") == "closure":
                return
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    go(t)
    return out


def walks(t):
    return any(any(w in n for w in WALKS) and not any(n.endswith(x) or "Entry" in n for x in NOWALK) for n in tys(t))


def positional(t):
    return any(n.rsplit("::", 1)[-1] in POSITIONAL for n in tys(t))


def integer(t):
    return t.get("k") == "prim" and t.get("n", "") not in ("f32", "f64", "str")


def name(t):
    n, fn = callee(t)
    return fn.get("m") or n.rsplit("::", 1)[-1], n, fn


def plain(e):
    return all(x[0] == "*" for x in e)


class Order:
    def __init__(self, crate):
        self.fns = library(crate)
        self.memo = {}
        self.walked = 0
        self.pushers = {}

    # ---- does a function put things in sequence on what it is handed by reference
    def appends(self, g, depth=0):
        if g.name in self.pushers:
            return self.pushers[g.name]
        self.pushers[g.name] = None
        res = "none"
        own = self.owned(g)
        for b in g.blocks:
            if b["c"]:
                continue
            for s in b["s"]:
                if s["k"] == "=" and any(e[0] == "*" for e in s["pl"]["p"]) and s["pl"]["l"] not in own and res == "none":
                    res = "writes"
            t = b["t"]
            if t["k"] != "call":
                continue
            m, n, fn = name(t)
            if not t["args"] or "pl" not in t["args"][0]:
                continue
            a = t["args"][0]["pl"]
            if m in MORE and not any(x in n for x in SETS) and a["l"] not in own:
                res = "appends"
                break
            h = self.fns.get(n)
            if h is not None and depth < 6 and any("pl" in x and x["pl"]["l"] not in own and g.locals[x["pl"]["l"]].get("mut") for x in t["args"]):
                r = self.appends(h, depth + 1)
                if r == "appends":
                    res = r
                    break
                if r == "writes":
                    res = r
        self.pushers[g.name] = res
        return res

    def owned(self, g):
        """locals that are, or refer to, the function's own variables"""
        ref = {}
        for b in g.blocks:
            for s in b["s"]:
                if s["k"] == "=" and not s["pl"]["p"] and s["rv"]["k"] == "ref":
                    ref.setdefault(s["pl"]["l"], []).append(s["rv"]["pl"])
        own = {l for l in range(g.argc + 1, len(g.locals)) if g.locals[l].get("k") not in ("ref", "ptr")}
        ch = True
        while ch:
            ch = False
            for l, ps in ref.items():
                if l not in own and ps and all(p["l"] in own and not any(e[0] == "*" for e in p["p"]) or p["l"] in own and plain(p["p"]) for p in ps):
                    own.add(l)
                    ch = True
        return own

    # ---- walks of a function
    def function(self, f, seeds=()):
        """(verdict, reasons, walks) of a function; seeds: parameters that are walks"""
        key = (f.name, tuple(seeds))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = ("holds", [], 0)
        bad, unk, n = [], [], 0
        un = {l for l in range(len(f.locals)) if walks(f.locals[l])} | set(seeds)
        ch = True
        boxed = set(seeds)
        while ch:                              # copies, references, boxes of a walk
            ch = False
            for b in f.blocks:
                for s in b["s"]:
                    if s["k"] == "=" and not s["pl"]["p"] and s["pl"]["l"] not in un:
                        rv = s["rv"]
                        src = rv.get("pl") if rv["k"] in ("ref", "rawptr") else rv["o"].get("pl") if rv["k"] in ("use", "cast") and isinstance(rv.get("o"), dict) else None
                        if src and src["l"] in un and plain(src["p"]):
                            un.add(s["pl"]["l"])
                            boxed.add(s["pl"]["l"])
                            ch = True
                t = b["t"]
                if t["k"] == "call" and not t["d"]["p"] and t["d"]["l"] not in un and any("pl" in a and a["pl"]["l"] in boxed for a in t["args"]):
                    m = name(t)[0]
                    if m in ("map", "filter", "copied", "cloned", "filter_map", "into_iter", "by_ref", "chain", "inspect", "flat_map", "flatten", "new", "from"):
                        un.add(t["d"]["l"])
                        boxed.add(t["d"]["l"])
                        ch = True
        if not un:
            return self.memo[key]
        if 0 in un or f.kind != "closure" and walks(f.locals[0]):
            bad.append("hands the walk of a hashed collection to its caller")
        for i, b in enumerate(f.blocks):
            t = b["t"]
            if b["c"] or t["k"] != "call":
                continue
            args = [j for j, a in enumerate(t["args"]) if "pl" in a and a["pl"]["l"] in un and plain(a["pl"]["p"])]
            if not args:
                continue
            m, nm, fn = name(t)
            n += 1
            self.walked += 1
            at = " at %s" % t.get("sp")
            ity = [f.locals[t["args"][j]["pl"]["l"]] for j in args]
            if m != "next" and not t["d"]["p"] and t["d"]["l"] in un:
                continue                       # an adapter; judged where it is consumed
            v, why = self.consume(f, i, t, m, nm, fn, args, ity)
            if v == "bad":
                bad.append(why + at)
            elif v == "unk":
                unk.append(why + at)
        self.memo[key] = ("violated" if bad else "undecided" if unk else "holds", bad + unk, n)
        return self.memo[key]

    def consume(self, f, i, t, m, nm, fn, args, ity):
        pos = any(positional(x) for x in ity)
        g = self.fns.get(nm)
        if g is not None:
            r = self.function(g, tuple(j + 1 for j in args))
            return {"violated": ("bad", "hands the walk of a hashed collection to %s, which %s" % (short(nm), (r[1] or [""])[0])),
                    "undecided": ("unk", (r[1] or [""])[0]), "holds": ("ok", "")}[r[0]]
        dty = f.locals[t["d"]["l"]] if not t["d"]["p"] else {}
        if pos and m in FREE - FREE_POS:
            return "bad", "numbers or picks the elements of a hashed collection in the order they are walked"
        if m.startswith("sorted") and not pos and self.ties(f, t):
            return "bad", "sorts by a count: elements with the same count stay in the order of a hashed collection"
        if m in FREE_POS or m in FREE and not pos:
            return "ok", ""
        if m == "sum" or m == "product":
            return ("ok", "") if integer(dty) and not pos else ("bad", "%s over numbers that are rounded, in the order of a hashed collection" % m)
        if m in ("collect", "from_iter", "extend", "append", "collect_vec", "insert_many", "to_vec"):
            if m in ("extend", "append"):
                tgt = t["args"][0].get("pl") if 0 not in args else None
                if tgt is None:
                    return "unk", "%s" % m
                ty = f.locals[tgt["l"]]
            else:
                tgt, ty = t["d"], dty
            names = [x.rsplit("::", 1)[-1] for x in tys(ty)]
            head = next((x for x in names if x in SETS + SEQS), None)
            if m == "extend" and head is None:
                names = [x for x in SETS + SEQS if x in nm]
                head = names[0] if names else None
            if head in SETS:
                return ("ok", "") if not pos else ("bad", "numbers the elements of a hashed collection in the order they are walked")
            if pos:
                return "bad", "numbers or picks the elements of a hashed collection in the order they are walked"
            if head is None:
                return "unk", "collects into %s" % (names[:1] or ["something"])[0]
            return self.sequence(f, t["t"], tgt)
        if m == "next":
            return self.loop(f, i, t, pos)
        if m in ("for_each", "fold", "try_for_each", "try_fold", "reduce"):
            cl = [x for a in t["args"] for x in closures_of(f, a) if x in self.fns]
            r = [self.appends(self.fns[x]) for x in cl]
            if "appends" in r and m == "for_each":
                for l in self.captured(f, t):
                    v = self.sequence(f, t["t"], {"l": l, "p": []})
                    if v[0] != "ok":
                        return v
                return "ok", ""
            if "appends" in r:
                return "unk", "%s puts the elements in the order of a hashed collection" % m
            return ("ok", "") if r and all(x == "none" for x in r) and m == "for_each" else ("unk", "%s over a hashed collection" % m)
        if m in ORDERED:
            return "bad", "%s depends on the order of a hashed collection" % m
        if m.startswith(("min_by", "max_by", "minmax")):
            uniq = any(("Keys" in n or "hash_set" in n) for x in ity for n in tys(x))
            cl = [self.fns[x] for a in t["args"] for x in closures_of(f, a) if x in self.fns]
            ms = {name(b["t"])[0] for g in cl for b in g.blocks if not b["c"] and b["t"]["k"] == "call"}
            if cl and not (uniq and ms <= {"cmp", "partial_cmp", "deref", "unwrap", "clone"}):
                return "bad", "%s over a hashed collection: of those that compare equal an arbitrary one" % m
        if m.startswith(("min_by", "max_by", "minmax", "find", "position")):
            return "unk", "%s over a hashed collection: of several candidates an arbitrary one" % m
        return "unk", "%s over a hashed collection" % m

    def captured(self, f, t):
        """the variables a closure is handed by mutable reference"""
        out = set()
        for a in t["args"]:
            if "pl" not in a or f.locals[a["pl"]["l"]].get("k") != "closure":
                continue
            for b in f.blocks:
                for s in b["s"]:
                    if s["k"] == "=" and s["pl"] == {"l": a["pl"]["l"], "p": []} and s["rv"]["k"] == "agg":
                        for o in s["rv"]["ops"]:
                            if "pl" in o and f.locals[o["pl"]["l"]].get("mut"):
                                r = self.roots(f, o["pl"]["l"])
                                top = [x for x in r if f.locals[x].get("k") not in ("ref", "ptr") or 0 < x <= f.argc]
                                out |= set(top)
        return sorted(out)

    def ties(self, f, t):
        """the order is that of counts: elements with the same count stay as they were"""
        for x in {x for a in t["args"] for x in closures_of(f, a) if x in self.fns}:
            ms = {name(b["t"])[0] for b in self.fns[x].blocks if not b["c"] and b["t"]["k"] == "call"}
            if ms & {"len", "count"} and ms <= {"len", "count", "deref", "cmp", "partial_cmp", "unwrap", "iter", "reverse"}:
                return True
        return False

    # ---- a sequence in arbitrary order
    def sequence(self, f, start, tgt):
        if not plain(tgt["p"]) and tgt["p"]:
            return "bad", "stores elements in the order of a hashed collection"
        al = frozenset(self.roots(f, tgt["l"]))
        if any(l <= f.argc for l in al if l):
            return "bad", "leaves elements in the order of a hashed collection in what it was handed"
        if start is None:
            return "ok", ""
        seen, work = set(), [(start, al)]
        while work:
            b, al = work.pop()
            if (b, al) in seen or len(seen) > 3000:
                continue
            seen.add((b, al))
            blk = f.blocks[b]
            a = set(al)
            for s in blk["s"]:
                if s["k"] != "=":
                    continue
                rv = s["rv"]
                ops = rv.get("ops") or [rv.get("o"), rv.get("a"), rv.get("b")]
                src = [o["pl"] for o in ops if isinstance(o, dict) and "pl" in o] + ([rv["pl"]] if "pl" in rv else [])
                hit = [p for p in src if p["l"] in a]
                if not hit or rv["k"] in ("len", "discr"):
                    if not s["pl"]["p"] and s["pl"]["l"] in a and not hit:
                        a.discard(s["pl"]["l"])
                    continue
                if any(not plain(p["p"]) for p in hit):
                    if rv["k"] == "ref" or rv["k"] == "use":
                        return "unk", "reads one element of a sequence in the order of a hashed collection"
                if s["pl"]["l"] == 0 or any(e[0] == "*" for e in s["pl"]["p"]):
                    return "bad", "leaves a sequence in the order of a hashed collection unsorted"
                a.add(s["pl"]["l"])
            t = blk["t"]
            if t["k"] == "return" and 0 in a:
                return "bad", "returns a sequence in the order of a hashed collection"
            if t["k"] == "call":
                hit = [j for j, x in enumerate(t["args"]) if "pl" in x and x["pl"]["l"] in a]
                if hit:
                    m, nm, fn = name(t)
                    if m in SORTS or m.startswith("sorted"):
                        if self.ties(f, t):
                            return "bad", "sorts by a count: elements with the same count stay in the order of a hashed collection"
                        continue               # from here on the order is known
                    if m in ("pop", "peek", "into_sorted_vec", "drain_sorted") and "BinaryHeap" in nm and any(
                            x.startswith("crate::") for x in tys(f.locals[t["args"][0]["pl"]["l"]])):
                        return "bad", "fills a heap in the order of a hashed collection: of equal elements an arbitrary one comes first"
                    if m in NEUTRAL or m in FREE or m in FREE_POS or any(x in nm for x in SILENT):
                        if m in ("sorted",):
                            continue
                    elif m in MORE and hit == [0]:
                        pass
                    elif m in ("collect", "from_iter") and not t["d"]["p"] and any(x.rsplit("::", 1)[-1] in SETS for x in tys(f.locals[t["d"]["l"]])[:1]):
                        pass
                    elif m in SAME or m in MORE or not t["d"]["p"] and f.locals[t["d"]["l"]].get("k") == "ref" and m in ("index", "index_mut"):
                        if t["d"]["l"] == 0 or any(e[0] == "*" for e in t["d"]["p"]):
                            return "bad", "leaves a sequence in the order of a hashed collection unsorted"
                        if m in MORE:
                            return "bad", "puts a sequence in the order of a hashed collection into another one"
                        a.add(t["d"]["l"])
                    elif m == "next":
                        v = self.loop(f, b, t, False)
                        if v[0] != "ok":
                            return v
                    elif nm in self.fns:
                        return "bad", "hands a sequence in the order of a hashed collection to %s" % short(nm)
                    else:
                        return "unk", "a sequence in the order of a hashed collection is used by %s" % short(nm)
                elif not t["d"]["p"]:
                    a.discard(t["d"]["l"])
            if t["k"] == "drop" and t.get("pl") and t["pl"]["l"] in a:
                a.discard(t["pl"]["l"])
            for x in mirsucc(t):
                work.append((x, frozenset(a)))
        return "ok", ""

    def roots(self, f, l):
        """the variables a reference refers to"""
        out, work = set(), [l]
        while work:
            x = work.pop()
            if x in out:
                continue
            out.add(x)
            for b in f.blocks:
                for s in b["s"]:
                    if s["k"] == "=" and not s["pl"]["p"] and s["pl"]["l"] == x:
                        rv = s["rv"]
                        p = rv.get("pl") if rv["k"] in ("ref", "rawptr") else rv["o"].get("pl") if rv["k"] in ("use", "cast") and isinstance(rv.get("o"), dict) else None
                        if p and f.locals[x].get("k") in ("ref", "ptr"):
                            work.append(p["l"])
                t = b["t"]
                if t["k"] == "call" and not t["d"]["p"] and t["d"]["l"] == x and f.locals[x].get("k") == "ref" and name(t)[0] in SAME:
                    work += [a["pl"]["l"] for a in t["args"][:1] if "pl" in a]
        return out

    # ---- a loop over a walk
    def loop(self, f, i, t, pos):
        heads = [(len(body), h, body) for h, body in f.cfg.loops.items() if i in body]
        if not heads:
            return "bad", "takes whichever element of a hashed collection comes first"
        if pos:
            return "bad", "numbers the elements of a hashed collection in the order they are walked"
        _, h, body = min(heads, key=lambda x: x[0])
        outside = set()                        # variables that live on after the loop, or come from before it
        inner = {s["pl"]["l"] for b in body for s in f.blocks[b]["s"] if s["k"] == "="} | {
            f.blocks[b]["t"]["d"]["l"] for b in body if f.blocks[b]["t"]["k"] == "call"}
        for b, blk in enumerate(f.blocks):
            if b in body or blk["c"]:
                continue
            mentioned(blk, outside)
        unk = None
        for b in sorted(body):
            blk = f.blocks[b]
            if blk["c"]:
                continue
            for s in blk["s"]:
                if s["k"] != "=":
                    continue
                p, rv = s["pl"], s["rv"]
                if any(e[0] == "*" for e in p["p"]) and p["l"] not in self.owned(f):
                    unk = unk or "a loop over a hashed collection overwrites what it was handed"
                elif p["l"] in outside and p["l"] != 0 and not const(rv) and not integer_step(f, p, rv):
                    unk = unk or "a loop over a hashed collection keeps one of its elements"
            u = blk["t"]
            if u["k"] != "call" or b == i:
                continue
            m, nm, fn = name(u)
            g = self.fns.get(nm)
            if m in MORE and not any(x in nm for x in SETS) and u["args"] and "pl" in u["args"][0]:
                r = self.roots(f, u["args"][0]["pl"]["l"])
                if any(x in outside or x <= f.argc for x in r):
                    if any(x <= f.argc for x in r if x) or any(e[0] == "*" for e in u["args"][0]["pl"]["p"]):
                        return "bad", "a loop over a hashed collection appends its elements in that order (%s)" % m
                    tgt = [x for x in r if f.locals[x].get("k") not in ("ref", "ptr")]
                    for x in tgt:
                        for e in sorted({y for q in body for y in mirsucc(f.blocks[q]["t"]) if y not in body}):
                            v = self.sequence(f, e, {"l": x, "p": []})
                            if v[0] == "bad":
                                return v
                            if v[0] == "unk":
                                unk = v[1]
            elif g is None:
                mutargs = [a["pl"]["l"] for a in u["args"] if "pl" in a and f.locals[a["pl"]["l"]].get("k") == "ref" and f.locals[a["pl"]["l"]].get("mut")]
                r = set().union(*[self.roots(f, l) for l in mutargs]) if mutargs else set()
                if any(x in outside or 0 < x <= f.argc for x in r) and m != "next":
                    if m in WRITES and not any(x in nm for x in SETS):
                        return "bad", "a loop over a hashed collection writes its elements in that order (%s)" % m
                    if m not in FREE | NEUTRAL | SAME and not any(x in nm for x in SETS):
                        unk = unk or "a loop over a hashed collection changes something by %s" % m
            else:
                own = {l for l in self.owned(f) if l not in outside}
                if any("pl" in a and f.locals[a["pl"]["l"]].get("k") == "ref" and f.locals[a["pl"]["l"]].get("mut") and not (
                        self.roots(f, a["pl"]["l"]) <= own) for a in u["args"]):
                    r = self.appends(g)
                    if r == "appends":
                        return "bad", "a loop over a hashed collection calls %s, which appends in that order" % short(nm)
                    if r != "none":
                        unk = unk or "a loop over a hashed collection calls %s, which changes what it is handed" % short(nm)
        if not unk and self.leaks(f, t, body):
            unk = "a loop over a hashed collection ends with one of its elements"
        return ("unk", unk) if unk else ("ok", "")

    def leaks(self, f, t, body):
        """an element is used after the loop was left"""
        if t["d"]["p"]:
            return True
        al, ch = {t["d"]["l"]}, True
        while ch:
            ch = False
            for b in body:
                for s in f.blocks[b]["s"]:
                    if s["k"] == "=" and not s["pl"]["p"] and s["pl"]["l"] not in al and s["rv"]["k"] in ("use", "ref", "cast"):
                        m = set()
                        mentioned(s["rv"], m)
                        if m & al:
                            al.add(s["pl"]["l"])
                            ch = True
        for b, blk in enumerate(f.blocks):
            if b in body or blk["c"]:
                continue
            for s in blk["s"]:
                m = set()
                if s["k"] == "=" and s["rv"]["k"] != "discr":
                    mentioned(s["rv"], m)
                if m & al:
                    return True
            if blk["t"]["k"] == "call":
                m = set()
                mentioned(blk["t"]["args"], m)
                if m & al:
                    return True
        return False


def mentioned(x, out):
    if isinstance(x, dict):
        if "l" in x and "p" in x and not isinstance(x["l"], dict):
            out.add(x["l"])
        for k, v in x.items():
            mentioned(v, out)
    elif isinstance(x, list):
        for v in x:
            mentioned(v, out)


def const(rv):
    return rv["k"] == "use" and "pl" not in rv["o"] or rv["k"] == "agg" and all("pl" not in o for o in rv["ops"])


def integer_step(f, p, rv):
    return integer(f.locals[p["l"]]) and rv["k"] in ("bin", "use") and f.locals[p["l"]].get("n") != "bool" and (
        rv["k"] != "bin" or rv["op"].startswith(("Add", "BitOr", "BitAnd", "BitXor", "Mul"))) and (
        rv["k"] == "bin" or "pl" in rv["o"] and rv["o"]["pl"]["p"] and rv["o"]["pl"]["p"][-1][0] == "f")


def mirsucc(t):
    import mir
    return mir.succs(t)


def closures_of(f, a):
    from flow import closures
    return closures([a.get("ty"), f.locals[a["pl"]["l"]] if "pl" in a else None], [])


def calls(fns):
    for f in fns.values():
        for i, b in enumerate(f.blocks):
            if not b["c"] and b["t"]["k"] == "call":
                yield f, i, b["t"]


def hashed(crate):
    """one obligation per function that walks a hashed collection, and one for all"""
    o = Order(crate)
    obs, fl = [], []
    for nm in sorted(o.fns):
        f = o.fns[nm]
        v, why, n = o.function(f)
        if n or v != "holds":
            fl.append(f.disp or f.name)
            obs.append(ctx.Ob("order/" + short(f.disp or f.name), "the order of a hashed collection does not reach what it does", f.span, v, why, n, [f.disp or f.name]))
    few = len(o.fns) < 100
    obs.append(ctx.Ob("order/all", "every walk over a hashed collection was found by its type in %d functions" % len(o.fns), "", "violated" if few else "holds",
                      ["only %d functions were found" % len(o.fns)] if few else [], o.walked, fl))
    return obs


def used(f, i, t):
    """does the value of a call reach anything but printing"""
    al, ch = {t["d"]["l"]}, True
    if t["d"]["p"] or 0 in al:
        return True
    while ch:
        ch = False
        for b in f.blocks:
            for s in b["s"]:
                if s["k"] != "=":
                    continue
                m = set()
                mentioned(s["rv"], m)
                if m & al:
                    if s["pl"]["p"] and any(e[0] == "*" for e in s["pl"]["p"]) or s["pl"]["l"] == 0:
                        return True
                    if s["pl"]["l"] not in al:
                        al.add(s["pl"]["l"])
                        ch = True
            u = b["t"]
            if u["k"] == "switch" and "pl" in u["o"] and u["o"]["pl"]["l"] in al:
                return True
            if u["k"] == "call" and u is not t and any("pl" in a and a["pl"]["l"] in al for a in u["args"]):
                m, nm, fn = name(u)
                if nm.endswith(("_print", "_eprint")):
                    continue
                if u["d"]["p"] or u["d"]["l"] == 0:
                    return True
                if u["d"]["l"] not in al:
                    al.add(u["d"]["l"])
                    ch = True
                if any(nm.startswith(x) for x in ("crate::",)):
                    return True
    return False


def world(crate):
    """clocks, environment, random numbers, addresses"""
    fns = library(crate)
    bad, unk, n = [], [], 0
    for f, i, t in calls(fns):
        n += 1
        nm = callee(t)[0]
        full = (t["f"].get("s") or "") + " " + nm
        if any(x in full for x in CLOCKS) and used(f, i, t):
            bad.append("%s uses %s at %s" % (short(f.disp), nm, t.get("sp")))
        elif any(x in full for x in COUNTS) and used(f, i, t):
            unk.append("%s uses %s at %s" % (short(f.disp), nm, t.get("sp")))
    for f in fns.values():
        for b in f.blocks:
            for s in b["s"]:
                if s["k"] == "=" and s["rv"]["k"] == "cast" and "Expose" in str(s["rv"].get("ck")):
                    bad.append("%s makes a number of an address at %s" % (short(f.disp), s.get("sp", "")))
    return [ctx.Ob("order/world", "no clock, environment, random number or address is used", "", "violated" if bad else "undecided" if unk else "holds", bad + unk, n, [])]


def state(crate):
    """state kept from call to call"""
    fns = library(crate)
    bad, unk, n = [], [], 0
    for f, i, t in calls(fns):
        n += 1
        nm = callee(t)[0]
        if "LocalKey" in nm:
            bad.append("%s keeps state of its thread (%s at %s)" % (short(f.disp), nm.rsplit("::", 1)[-1], t.get("sp")))
    stat = [x["n"] for x in crate.j.get("items", []) if x.get("kind") == "static"]
    if stat:
        for f, i, t in calls(fns):
            nm = callee(t)[0]
            if any(x in nm for x in ("atomic::", "::Mutex", "::RwLock")):
                bad.append("%s uses the shared state %s (%s at %s)" % (short(f.disp), ", ".join(stat)[:80], nm.rsplit("::", 1)[-1], t.get("sp")))
            elif any(x in nm for x in ("OnceLock", "OnceCell", "LazyLock")):
                unk.append("%s uses %s" % (short(f.disp), nm))
    return [ctx.Ob("order/state", "nothing is kept from one call to the next", "", "violated" if bad else "undecided" if unk else "holds", bad + unk, n, stat)]


def threads(crate):
    """what several threads deliver is put in order by position"""
    fns = library(crate)
    bad, unk, n = [], [], 0
    for f, i, t in calls(fns):
        m, nm, fn = name(t)
        if "rayon" not in nm and "rayon" not in str(fn.get("n")):
            continue
        n += 1
        at = "%s at %s" % (short(f.disp), t.get("sp"))
        dty = f.locals[t["d"]["l"]] if not t["d"]["p"] else {}
        if m in PICKS:
            bad.append("%s takes what the first thread finds (%s)" % (at, m))
        elif m in ("sum", "product") and not integer(dty):
            bad.append("%s adds rounded numbers in the order threads deliver them" % at)
        elif m in ("for_each", "try_for_each", "for_each_with", "spawn", "scope", "for_each_init"):
            cap = str([f.locals[a["pl"]["l"]] if "pl" in a else a.get("ty") for a in t["args"]])
            cl = [x for a in t["args"] for x in closures_of(f, a)]
            body = str([[b for b in fns[x].blocks if b["t"]["k"] == "call"] for x in cl if x in fns])
            if any(x in cap + body for x in MUTEX):
                (bad if any("::" + x in body for x in ("push", "extend", "push_str")) else unk).append("%s gathers what threads deliver in the order they come (%s)" % (at, m))
    return [ctx.Ob("order/threads", "what several threads deliver is combined by position", "", "violated" if bad else "undecided" if unk else "holds", bad + unk, n, [])]
