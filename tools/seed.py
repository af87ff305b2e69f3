"""Works with the planted bugs: python3 tools/seed.py verify|check|all [ID...]

verify: the demo passes on the tree and fails with the patch, which passes the stable tests;
check:  the quick check of the property reports the patched tree.
Everything happens in scratch copies of /repo that are removed afterwards."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def copy_repo():
    d = tempfile.mkdtemp(prefix="seed-")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, ignore=shutil.ignore_patterns("__pycache__", ".git"))
    subprocess.run(["git", "init", "-q"], cwd=r, check=True)
    return d, r


def demo(repo, sid, d):
    # laid elsewhere, without the patch
    away = os.path.join(d, "demo")
    shutil.rmtree(away, ignore_errors=True)
    shutil.copytree(os.path.join(SEEDED, sid), away, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    p = subprocess.run(["bash", os.path.join(away, "demo.sh")], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode(errors="replace")[-600:]


def verify(sid):
    d, r = copy_repo()
    try:
        out = []
        rc, txt = demo(r, sid, d)
        if rc != 0:
            out.append("DEMO FAILS ON THE TREE: " + txt)
        p = subprocess.run(["git", "apply", os.path.join(SEEDED, sid, "patch.diff")], cwd=r, stderr=subprocess.PIPE)
        if p.returncode:
            return sid, ["PATCH DOES NOT APPLY " + p.stderr.decode()]
        rc, txt = demo(r, sid, d)
        if rc == 0:
            out.append("DEMO PASSES WITH THE PATCH")
        elif "AssertionError" not in txt:
            out.append("demo fails without assertion: " + txt[-300:])
        script = open("/opt/vp/test.sh").read().replace("cd /repo", "cd %s; export PYTHONPATH=%s" % (r, r))
        t = os.path.join(d, "test.sh")
        open(t, "w").write(script)
        o = os.path.join(d, "o.json")
        subprocess.run(["bash", t, o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        miss = STABLE - set(json.load(open(o))["passed"])
        if miss:
            out.append("TESTS FAIL: %s" % sorted(miss)[:4])
        return sid, out
    finally:
        shutil.rmtree(d)


def check(sid, prop=None):
    d, r = copy_repo()
    try:
        subprocess.run(["git", "apply", os.path.join(SEEDED, sid, "patch.diff")], cwd=r, check=True)
        prop = prop or json.load(open(os.path.join(SEEDED, sid, "meta.json")))["property"]
        p = subprocess.run([sys.executable, "run.py", prop, "--no-shrink"], cwd=HERE, env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        txt = p.stdout.decode(errors="replace")
        caught = p.returncode == 1 and "VIOLATION property=%s " % prop in txt
        line = next((ln for ln in txt.splitlines() if ln.startswith("violation ")), txt[-300:])
        return sid, caught, line[:230]
    finally:
        shutil.rmtree(d)


def main():
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    if sys.argv[1] in ("verify", "all"):
        with ThreadPoolExecutor(2) as ex:
            for sid, out in ex.map(verify, ids):
                print(sid, "ok" if not out else out, flush=True)
    if sys.argv[1] in ("check", "all"):
        for sid in ids:
            print(*check(sid), flush=True)


main()
