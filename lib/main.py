"""main.py ID [quick|thorough]: decide one property.

Dumps the MIR of /repo's current working tree (getmir.sh), runs every obligation of the property
over it, rewrites evidence/ID.json and prints the verdict.  Exit 0: no obligation is violated
(undecided ones are listed in the evidence); exit 1 with a VIOLATION line: one is, or the
analysis has lost an anchor it must have."""
import sys, os, json, time, subprocess, multiprocessing, resource, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import mir, ctx
from props import PROPS

TRUST_V = ["the MIR dumper (rustc's own type checker and MIR builder)",
           "lib/models.py: meaning of core/alloc and vector-traits calls",
           "real arithmetic: rounding, overflow and NaN are outside the abstraction"]


def known():
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln or ln.startswith("#") or ln.startswith("fixed:"):
                continue
            # property=<id> key=<key> <what fails>
            f = ln.split(None, 2)
            out[(f[0].split("=", 1)[1], f[1].split("=", 1)[1])] = f[2] if len(f) > 2 else ""
    return out


CR = None


def task(t):
    kind, a, b, lim = t
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    if kind == "spec":
        o = ctx.run_spec(CR, a, os.path.join(ROOT, "spec/src"), only={b}, limit=lim)
        return [x.full() for x in o]
    m = __import__(a)
    t0 = time.time()
    try:
        r = getattr(m, b)(CR)
    except Exception as e:
        o = ctx.Ob("%s/%s" % (a, b), "", "", "undecided", ["analysis stopped: %s: %s" % (type(e).__name__, e)])
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
        r = [o]
    if r:
        r[0].wall = time.time() - t0
    return [x.full() for x in r]


def child(t, conn):
    try:
        conn.send(task(t))
    except MemoryError:
        conn.send([lost(t, "memory limit")])
    except BaseException as e:
        conn.send([lost(t, "%s: %s" % (type(e).__name__, e))])
    finally:
        conn.close()
        os._exit(0)


def lost(t, why):
    return ctx.Ob("%s/%s" % (t[1], t[2]), "", "", "undecided", ["analysis stopped: " + why]).full()


def pool(tasks, limit):
    """run every task in its own forked process, at most 8 at a time"""
    res, todo, live = [], list(tasks), {}
    ctxm = multiprocessing.get_context("fork")
    from multiprocessing.connection import wait
    end = time.time() + limit
    while todo or live:
        while todo and len(live) < 8:
            t = todo.pop(0)
            r, w = ctxm.Pipe(False)
            p = ctxm.Process(target=child, args=(t, w))
            p.start()
            w.close()
            live[r] = (p, t, time.time() + 650)
        for r in wait(list(live), timeout=1):
            p, t, _ = live.pop(r)
            try:
                res += r.recv()
            except EOFError:
                res.append(lost(t, "the analysis process ended"))
            r.close()
            p.join()
        now = time.time()
        for r, (p, t, dl) in list(live.items()):
            if now > dl or now > end:
                p.kill()
                p.join()
                live.pop(r)
                r.close()
                res.append(lost(t, "time limit"))
        if now > end:
            res += [lost(t, "time limit") for t in todo]
            todo = []
    return res


def main():
    global CR
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    P = PROPS[pid]
    W = os.environ.get("VERIF_WORK", os.path.join(ROOT, "work"))
    os.makedirs(W, exist_ok=True)
    out = os.path.join(W, "mir-" + pid)
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(ev, exist_ok=True)
    evf = os.path.join(ev, pid + ".json")
    p = subprocess.run(["bash", os.path.join(ROOT, "lib/getmir.sh"), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    obs = []
    if p.returncode != 0:
        what = {3: "the library does not build", 4: "the public interface the property is stated over is gone"}.get(p.returncode, "the MIR dump failed")
        o = ctx.Ob("anchor/interface", "the library must expose the interface the property is stated over", "crate", "violated",
                   [what] + p.stdout.strip().splitlines()[-25:]).full()
        obs.append(o)
    else:
        CR = mir.Crate(out + ".crate.json")
        CR.add_spec(out + ".spec.json")
        tasks = []
        lim = P.get("limit", 120 if tier == "quick" else 400)
        for m in P.get("spec", []):
            for n in ctx.spec_names(CR, m):
                tasks.append(("spec", m, n, lim))
        for (m, f) in P.get("run", []):
            tasks.append(("run", m, f, lim))
        obs = pool(tasks, 780)
        if len(obs) < P.get("floor", 1):
            obs.append(ctx.Ob("anchor/floor", "the analysis must find at least %d obligations" % P.get("floor", 1), "crate", "violated",
                              ["only %d obligations were found" % len(obs)]).full())
    for s in (".crate.json", ".spec.json"):
        if os.path.exists(out + s):
            os.remove(out + s)
    obs.sort(key=lambda o: o["obligation"])
    kn = known()
    viol, finds = [], []
    for o in obs:
        if o["verdict"] == "violated":
            if (pid, o["key"]) in kn:
                o["verdict"] = "known finding"
                finds.append((o, kn[(pid, o["key"])]))
            else:
                viol.append(o)
    held = [o for o in obs if o["verdict"] == "holds"]
    und = [o for o in obs if o["verdict"] == "undecided"]
    fns = sorted({f for o in obs for f in o.get("functions", [])})
    wall = time.time() - t0
    doc = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": P["level"],
           "coverage": {
               "explanation": P["how"],
               "obligations": len(obs), "discharged": len(held), "undecided": len(und),
               "known_findings": len(finds),
               "cells_compared": sum(o.get("cells_compared", 0) for o in obs),
               "functions_analysed": len(fns), "functions": fns,
               "samples": obs,
               "checker_cmd": "bash run.sh %s %s" % (pid, tier),
               "trusted_base": P.get("trust", TRUST_V)},
           "assumptions": P.get("assume", []),
           "wall_s": round(wall, 2), "violations": len(viol)}
    with open(evf, "w") as f:
        json.dump(doc, f, indent=1)
    print("%s: %d obligations over %d functions: %d hold, %d undecided, %d known findings, %d violated (%.0f s)" % (
        pid, len(obs), len(fns), len(held), len(und), len(finds), len(viol), wall))
    for o in und:
        print("UNDECIDED %s: %s" % (o["obligation"], (o.get("detail") or [""])[0][:200]))
    for o, w in finds:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, o["obligation"], w))
    if viol:
        for o in viol[:8]:
            print("  %s: %s" % (o["obligation"], o.get("rule", "")))
            print("    in: %s" % o.get("construct", ""))
            for d in o.get("detail", [])[:3]:
                print("    %s" % d[:700])
        print("VIOLATION property=%s replay=%s" % (pid, evf))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
