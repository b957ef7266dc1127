"""refactor.py LIST.py [ID...]: apply behaviour-preserving edits in scratch copies of /repo and run the
specification modules named by each; every obligation that is then reported as violated is a false
alarm.  Development tool; no check uses it.

An edit: dict(id, mods="c01,c03", edits=[(file, old, new[, count])])."""
import sys, os, subprocess, shutil, runpy, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/rf"
N = int(os.environ.get("N", "5"))
lst = runpy.run_path(sys.argv[1])["EDITS"]
ids = set(sys.argv[2:])
q = queue.Queue()
for e in lst:
    if not ids or e["id"] in ids:
        q.put(e)
lock = threading.Lock()
tot = {"violated": 0, "undecided": 0, "holds": 0}


def worker(n):
    d = "%s/%d" % (SCR, n)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    if os.path.isdir(ROOT + "/work"):
        subprocess.run(["cp", "-a", ROOT + "/work", d + "/w"], check=True)
    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_WORK=d + "/w")
    while True:
        try:
            e = q.get_nowait()
        except queue.Empty:
            break
        out = []
        subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
        bad = None
        for ed in e["edits"]:
            f = d + "/repo/" + ed[0]
            s = open(f).read()
            if s.count(ed[1]) != (ed[3] if len(ed) > 3 else 1):
                bad = "pattern occurs %d times: %s" % (s.count(ed[1]), ed[1][:60])
                break
            open(f, "w").write(s.replace(ed[1], ed[2]))
        if bad is None:
            r = subprocess.run(["bash", ROOT + "/lib/getmir.sh", d + "/w/mir"], env=env, capture_output=True, text=True)
            if r.returncode:
                bad = "does not build: " + (r.stdout + r.stderr)[-1500:]
        if bad is None and os.environ.get("TESTS"):
            r = subprocess.run(["cargo", "test", "--offline", "--no-fail-fast", "--features", "glam,cgmath", "--target-dir", d + "/t"],
                               cwd=d + "/repo", env=dict(env, RUSTFLAGS="--force-warn unused-attributes", RUSTDOCFLAGS="--force-warn unused-attributes"), capture_output=True, text=True)
            fails = [l.split(" ... ")[0][5:75] for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("FAILED")]
            out.append("tests: " + (("FAIL " + " ".join(fails[:3])) if fails else "pass" if "test result: ok" in r.stdout else "?? " + r.stderr[-200:]))
        if bad is None:
            r = subprocess.run(["python3-vt", ROOT + "/lib/sp.py", e["mods"]], env=env, capture_output=True, text=True)
            for ln in r.stdout.splitlines():
                w = ln.split()[0] if ln.split() else ""
                if w in tot and not ln.startswith(" "):
                    tot[w] += 1
                    show = w != "holds" and "c04/same_axes_yz" not in ln
                if show:
                    out.append(ln[:260])
            if r.returncode:
                out.append(r.stderr[-500:])
        with lock:
            print("== %s %s" % (e["id"], "BAD " + bad if bad else ("ok" if not out else "")))
            for ln in out:
                print("   ", ln)
            sys.stdout.flush()


ts = [threading.Thread(target=worker, args=(i,)) for i in range(min(N, q.qsize()))]
[t.start() for t in ts]
[t.join() for t in ts]
print(tot)
