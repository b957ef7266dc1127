"""design.py : rewrite the generated parts of DESIGN.md (obligations per property, planted bugs) from spec/, lib/props.py and seeded/"""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
from props import PROPS, NOT_APPLICABLE
def obligations(mod):
    doc, opts, out = [], [], []
    for l in open(os.path.join(ROOT, "spec/src/%s.rs" % mod)):
        s = l.strip()
        if s.startswith("///"): doc.append(s[3:].strip())
        elif s.startswith("// @"): opts.append(s[4:])
        else:
            m = re.match(r"pub fn (\w+?)__(got|holds|total)\b", s)
            if m: out.append((m.group(1), " ".join(doc), opts)); doc, opts = [], []
            elif re.match(r"(pub )?fn |impl|struct|use |mod ", s) and not re.search(r"__(pre|want)\b", s): doc, opts = ([], []) if not re.search(r"__", s) else (doc, opts)
    return out
def gen_ob():
    o = []
    for pid, p in sorted(PROPS.items()):
        o.append("#### %s %s\n" % (pid, p["title"]))
        for mod in p.get("spec", []):
            for n, d, op in obligations(mod):
                o.append("- `%s/%s` %s%s" % (mod, n, d, (" *(" + "; ".join(op) + ")*") if op else ""))
        for r in p.get("run", []):
            o.append("- `%s/%s`" % tuple(r[:2]))
        o.append("")
    return "\n".join(o)
def gen_bugs():
    o = ["| planted bug | property whose check catches it | what it needs in order to manifest |", "|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
        o.append("| `%s` | %s | %s |" % (d, m["property"], m["needs"].replace("|", "/")))
    return "\n".join(o)
def gen_na():
    return "\n".join("- **%s** %s" % kv for kv in sorted(NOT_APPLICABLE.items()))
f = os.path.join(ROOT, "DESIGN.md")
t = open(f).read()
for tag, g in (("obligations", gen_ob), ("bugs", gen_bugs), ("na", gen_na)):
    t, n = re.subn(r"(<!-- gen:%s -->\n).*?(<!-- end -->)" % tag, lambda m: m.group(1) + g() + "\n" + m.group(2), t, flags=re.S)
    assert n == 1, tag
open(f, "w").write(t)
