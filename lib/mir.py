"""Load the MIR dump; CFG utilities (RPO, natural loops, dominators)."""
import json


class Fn:
    def __init__(self, j):
        self.j = j
        self.name = j["n"]
        self.disp = j["disp"]
        self.blocks = j["blocks"]
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.generics = j.get("generics", [])
        self.preds = j.get("preds", [])
        self.kind = j.get("kind", "")
        self.short = j.get("m") or self.name.rsplit("::", 1)[-1]
        self.span = j.get("sp", "")
        self._cfg = None
        self._live = None

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self.blocks)
        return self._cfg


    @property
    def live(self):
        """per block: locals that may be read by name from its start on; others whose address is taken somewhere"""
        if self._live is None:
            self._live = liveness(self)
        return self._live


def places(x, out):
    """locals mentioned in a piece of MIR"""
    if isinstance(x, dict):
        if "l" in x and "p" in x:
            out.add(x["l"])
            for e in x["p"]:
                if e[0] == "i":
                    out.add(e[1])
            return
        for v in x.values():
            places(v, out)
    elif isinstance(x, list):
        for v in x:
            places(v, out)


def liveness(fn):
    taken = {0}
    gen, kill = [], []
    for b in fn.blocks:
        g, k = set(), set()
        for s in b["s"]:
            u = set()
            d = None
            if s["k"] == "=":
                places(s["rv"], u)
                if s["rv"]["k"] in ("ref", "rawptr"):
                    taken |= u
                if s["pl"]["p"]:
                    places(s["pl"], u)
                else:
                    d = s["pl"]["l"]
            else:
                places(s, u)
            g |= u - k
            if d is not None:
                k.add(d)
        t = b["t"]
        u = set()
        for key, v in t.items():
            if not (key == "d" and isinstance(v, dict) and not v.get("p")):
                places(v, u)
        g |= u - k
        if isinstance(t.get("d"), dict) and not t["d"].get("p"):
            k.add(t["d"]["l"])
        gen.append(g)
        kill.append(k)
    cfg = fn.cfg
    live = [set() for _ in fn.blocks]
    ch = True
    while ch:
        ch = False
        for b in reversed(cfg.rpo):
            o = set()
            for s in cfg.succ[b]:
                o |= live[s]
            n = gen[b] | (o - kill[b])
            if n != live[b]:
                live[b] = n
                ch = True
    return [(frozenset(x | {0}), frozenset(taken - x - {0})) for x in live]


def succs(t):
    k = t["k"]
    if k == "goto":
        return [t["t"]]
    if k == "switch":
        return [x[1] for x in t["ts"]] + [t["else"]]
    if k in ("drop", "call", "assert"):
        return [t["t"]] if t.get("t") is not None else []
    return []


class Cfg:
    """control flow without unwind edges"""

    def __init__(self, blocks):
        n = len(blocks)
        self.succ = [succs(b["t"]) for b in blocks]
        # drop successors that are unreachable blocks
        self.unreach = {i for i, b in enumerate(blocks) if b["t"]["k"] == "unreachable" and not b["s"]}
        self.succ = [[s for s in ss if s not in self.unreach] for ss in self.succ]
        order, seen = [], set()
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x != y:
                        while self.idx[x] > self.idx[y]:
                            x = idom[x]
                        while self.idx[y] > self.idx[x]:
                            y = idom[y]
                    new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])
        self.irreducible = any(self.idx[s] <= self.idx[b] and not self.dominates(s, b)
                               for b in self.rpo for s in self.succ[b])

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


class Crate:
    def __init__(self, path):
        with open(path) as f:
            self.j = json.load(f)
        self.fns = {f["n"]: Fn(f) for f in self.j["fns"]}
        self.by_disp = {}
        for f in self.fns.values():
            self.by_disp.setdefault(f.disp, f)
        self.adts = {a["n"]: a for a in self.j["adts"]}
        self.impls = self.j["impls"]
        self.traits = {t["n"]: t for t in self.j["traits"]}

        self.spec = {}

    def add_spec(self, path):
        with open(path) as f:
            j = json.load(f)
        for x in j["fns"]:
            fn = Fn(x)
            self.fns[fn.name] = fn
            self.spec[fn.name] = fn
        for a in j["adts"]:
            self.adts[a["n"]] = a
        self.impls = self.impls + j["impls"]
        return j

    def fn(self, disp):
        return self.by_disp.get(disp)

    def field_index(self, adt, name):
        for i, f in enumerate(self.adts[adt]["variants"][0]["f"]):
            if f["n"] == name:
                return i
        return None


# ---- printing
def pplace(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        if e[0] == "*":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += ".%d" % e[1]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        elif e[0] == "d":
            s += " as %s" % (e[2] if len(e) > 2 else e[1])
        else:
            s += str(e)
    return s


def pop(o):
    if "pl" in o:
        return ("move " if o["k"] == "mv" else "") + pplace(o["pl"])
    return o.get("s", "?")


def prv(r):
    k = r["k"]
    if k == "use":
        return pop(r["o"])
    if k == "ref":
        return "&%s%s" % ("mut " if r["mut"] else "", pplace(r["pl"]))
    if k == "bin":
        return "%s(%s, %s)" % (r["op"], pop(r["a"]), pop(r["b"]))
    if k == "un":
        return "%s(%s)" % (r["op"], pop(r["a"]))
    if k == "agg":
        return "%s %s{%s}" % (r.get("ak"), r.get("vn") or r.get("n") or "", ", ".join(pop(x) for x in r["ops"]))
    if k == "discr":
        return "discr(%s)" % pplace(r["pl"])
    if k == "cast":
        return "cast[%s](%s)" % (r["ck"], pop(r["o"]))
    return str({x: r[x] for x in r if x not in ("t",)})[:200]


def dump(f, out=print):
    out("fn", f.name, "|", f.disp)
    for nm, pl in f.j["names"]:
        out("   debug", nm, pplace(pl))
    for i, b in enumerate(f.blocks):
        if b["c"]:
            continue
        out(" bb%d:" % i)
        for s in b["s"]:
            if s["k"] == "=":
                out("    %s = %s" % (pplace(s["pl"]), prv(s["rv"])))
            else:
                out("    ", s)
        t = b["t"]
        if t["k"] == "call":
            out("    %s = call %s(%s) -> bb%s" % (pplace(t["d"]), pop(t["f"]), ", ".join(pop(a) for a in t["args"]), t["t"]))
        elif t["k"] == "switch":
            out("    switch %s %s else bb%d" % (pop(t["o"]), t["ts"], t["else"]))
        elif t["k"] == "assert":
            out("    assert %s==%s %s -> bb%s" % (pop(t["o"]), t["e"], t["m"], t["t"]))
        else:
            out("    %s %s" % (t["k"], t.get("t", "")))


if __name__ == "__main__":
    import sys
    c = Crate(sys.argv[1])
    for a in sys.argv[2:]:
        for f in c.fns.values():
            if a in f.disp:
                dump(f)
