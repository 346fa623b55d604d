"""Run the check of each seeded change's property against a copy of /repo with the change applied."""
import json, os, re, shutil, subprocess, sys, tempfile, time
import threading
LOCK = threading.Lock()
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid):
    d = f"{VERIF}/seeded/{sid}"
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="try_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo/.", w], check=True)
        subprocess.run(["git", "apply", d + "/patch.diff"], cwd=w, check=True)
        t = time.time()
        p = subprocess.run(["python3-vt", f"{VERIF}/check.py", prop, "quick"], cwd=VERIF, capture_output=True, text=True,
                           env=dict(os.environ, PYDV_EVIDENCE=w + "/.ev", PYDV_REPO=w, VERIF_SEED="1", VERIF_TIER="quick"))
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        caught = p.returncode == 1 and any(f"property={prop} " in l for l in v)
        how = " + ".join((["input"] if "failing input:" in p.stdout else []) + (["obligation"] if "failed obligation:" in p.stdout else []))
        with LOCK:
            f = f"{VERIF}/tools/caught.json"
            c = json.load(open(f)) if os.path.exists(f) else {}
            c[sid] = (prop + ": " + how) if caught else "missed"
            json.dump(c, open(f, "w"), indent=1, sort_keys=True)
        note = "concrete" if any("no-failing" not in l for l in v) else "obligation only"
        print("CAUGHT" if caught else "MISSED", sid, f"rc={p.returncode} {time.time()-t:.0f}s", note if caught else p.stdout[-300:] + p.stderr[-300:], flush=True)
    finally:
        shutil.rmtree(w)


ids = sys.argv[1:] or sorted(os.listdir(f"{VERIF}/seeded"))
ids = [s for s in sorted(os.listdir(f"{VERIF}/seeded")) if any(s.startswith(i) for i in ids)]
from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(int(os.environ.get("JOBS", "4"))) as ex:
    list(ex.map(one, ids))
