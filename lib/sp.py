"""developer tool: run obligations of specification modules"""
import sys, os
sys.path.insert(0, os.path.dirname(__file__))
import mir, ctx, main
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("VERIF_WORK", root + "/work")
main.CR = mir.Crate(W + "/mir.crate.json")
main.CR.add_spec(W + "/mir.spec.json")
tasks = [("spec", m, n, 120) for m in sys.argv[1].split(",") for n in ctx.spec_names(main.CR, m) if not sys.argv[2:] or n in sys.argv[2:]]
from props import PROPS
tasks += [("run", m, f, 120) for P in PROPS.values() for m, f in P.get("run", []) if m in sys.argv[1].split(",")]
for o in sorted(main.pool(tasks, 3600), key=lambda o: o["obligation"]):
    print("%-9s %-40s %5.1fs cells=%d" % (o["verdict"], o["obligation"], o.get("wall_s", 0), o.get("cells_compared", 0)), flush=True)
    for d in o.get("detail") or []:
        print("      ", d[:int(os.environ.get("W", "300"))])
