"""Generate /verif/seeded/<id>/ from tools/seeds/*.py and confirm each change.

Every seed is a dict: id, prop, file, edits [(old, new)], needs, breaks, demo.
A seed is kept only when: it applies, its demo passes on /repo and fails with
the change, and (unless --fast) the stable tests still pass with the change.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
STABLE = ["test/test_algorithms/test_driver.py", "test/test_algorithms/test_hgs.py",
          "test/test_algorithms/test_imga.py",
          "test/test_algorithms/test_platform.py::DriverTest::test_smoke"]
DEMO_SH = """#!/bin/bash
HERE="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$HERE/demo.py"
"""
PRELUDE = '''import logging, math, os, random, sys, types
logging.disable(logging.CRITICAL)
try:
    import scipy.spatial
except ImportError:
    _s, _d = types.ModuleType("scipy.spatial"), types.SimpleNamespace(
        euclidean=lambda a, b: math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b))))
    _s.distance = _d
    _p = types.ModuleType("scipy"); _p.spatial = _s
    sys.modules["scipy"], sys.modules["scipy.spatial"] = _p, _s


'''


def load():
    seeds = []
    for f in sorted(glob.glob(os.path.join(VERIF, "tools/seeds/*.py"))):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        seeds += m.SEEDS
    return seeds


def sub(path, old, new):
    s = open(path, newline="").read()
    crlf = "\r\n" in s
    if crlf:
        s = s.replace("\r\n", "\n")
    assert s.count(old) == 1, (path, s.count(old), old)
    s = s.replace(old, new)
    open(path, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)


def demo(d, w):
    p = subprocess.run(["bash", d + "/demo.sh"], cwd=w, capture_output=True, text=True, timeout=280)
    return p.returncode, (p.stdout + p.stderr)[-400:]


def make(s, fast=False):
    d = os.path.join(VERIF, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", REPO + "/.", w], check=True)
        open(d + "/demo.sh", "w").write(DEMO_SH)
        body = s["demo"].strip("\n")
        fut = "" if "NOPRELUDE" in body else PRELUDE
        open(d + "/demo.py", "w").write(fut + body + "\n")
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        rc0, out0 = demo(d, w)
        edits = s["edits"]
        for e in edits:
            f, old, new = e if len(e) == 3 else (s["file"],) + tuple(e)
            sub(os.path.join(w, f), old.strip("\n"), new.strip("\n"))
        diff = subprocess.run(["git", "diff", "--binary"], cwd=w, capture_output=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
        rc1, out1 = demo(d, w)
        ok = rc0 == 0 and rc1 != 0
        t = "skipped"
        if ok and not fast:
            p = subprocess.run(["timeout", "280", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p",
                                "no:cacheprovider", "--timeout=240"] + STABLE, cwd=w, capture_output=True, text=True,
                               env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg"))
            t = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else "?"
            ok = p.returncode == 0
        print(("OK  " if ok else "BAD ") + s["id"], "| clean rc", rc0, "| patched rc", rc1, "|", t,
              "" if ok else "\n--clean: " + out0 + "\n--patched: " + out1, flush=True)
        return ok
    except Exception as e:
        print("BAD ", s["id"], repr(e), flush=True)
        return False
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    fast = "--fast" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(lambda s: make(s, fast), [s for s in load() if not ids or any(s["id"].startswith(i) for i in ids)]))
