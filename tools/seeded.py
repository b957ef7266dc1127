"""seeded.py [ID...]: run the specification modules of the property of each planted bug against a scratch
copy with the bug applied.  Development tool."""
import sys, os, subprocess, shutil, json, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/lib")
SCR = "/tmp/sd"
ids = sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded"))
q = queue.Queue()
for i in ids:
    q.put(i)
lock = threading.Lock()


def worker(n):
    d = "%s/%d" % (SCR, n)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    subprocess.run(["cp", "-a", ROOT, d + "/v"], check=True)
    env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_WORK=d + "/v/work")
    while True:
        try:
            i = q.get_nowait()
        except queue.Empty:
            break
        pid = json.load(open("%s/seeded/%s/meta.json" % (ROOT, i)))["property"]
        subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
        a = subprocess.run(["git", "-C", d + "/repo", "apply", "%s/seeded/%s/patch.diff" % (ROOT, i)])
        r = subprocess.run(["bash", d + "/v/run.sh", pid, "quick"], env=env, capture_output=True, text=True, cwd=d + "/v")
        with lock:
            print("%-28s %s %s" % (i, pid, "CAUGHT" if r.returncode == 1 else "missed"))
            for ln in r.stdout.splitlines():
                if r.returncode != 1 or ln.startswith("  c"):
                    print("      ", ln[:200])
            sys.stdout.flush()


ts = [threading.Thread(target=worker, args=(i,)) for i in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
shutil.rmtree(SCR)
