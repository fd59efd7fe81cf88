#!/usr/bin/env python3
"""bug.py ID [check]: confirms a planted bug in a scratch copy of /repo (demo, build, stable tests) and runs its check.

bug.py ID norun: only confirm.  bug.py ID only: only run the check."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bid = sys.argv[1]
mode = sys.argv[2] if len(sys.argv) > 2 else "all"
d = os.path.join(V, "seeded", bid)
meta = json.load(open(d + "/meta.json"))
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
tmp = tempfile.mkdtemp(prefix="bug-%s-" % bid, dir="/root/bugw")
r = tmp + "/repo"
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace", **k)
try:
    subprocess.check_call(["cp", "-a", "/repo", r])
    demo = tmp + "/demo"
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    res = {}
    if mode != "only":
        p = sh("bash %s/demo.sh" % demo, cwd=r)
        res["demo clean"] = p.returncode
        if p.returncode: print(p.stdout[-1500:], p.stderr[-1500:])
    p = sh("git apply %s/patch.diff" % d, cwd=r)
    if p.returncode: print("PATCH DOES NOT APPLY", p.stderr); sys.exit(1)
    if mode != "only":
        p = sh("/usr/bin/python3 /opt/vp/hirm/gen_ninja.py %s/cxx %s/_build && ninja -C %s/cxx -f %s/_build/build.ninja everything" % (r, r, r, r))
        res["build"] = p.returncode
        if p.returncode: print(p.stdout[-3000:])
        sh("rm -rf %s/_build/test; mkdir -p %s/_build/test; PYTHONDONTWRITEBYTECODE=1 /usr/bin/python3 /opt/vp/hirm/run_tests.py %s %s/lines.txt" % (r, r, r, tmp))
        ok = {l[5:].strip() for l in open(tmp + "/lines.txt") if l.startswith("PASS ")}
        bad = [t for t in base if t not in ok]
        res["stable tests failing"] = bad[:8]
        p = sh("bash %s/demo.sh" % demo, cwd=r)
        res["demo patched"] = p.returncode
        print(bid, res)
        print("  demo says:", (p.stdout + p.stderr).strip()[-300:])
    if mode != "norun":
        for pr in meta.get("checks", [meta["property"]]):
            p = sh("python3-vt check.py %s" % pr, cwd=V, env=dict(os.environ, VERIF_DEV_REPO=r))
            print("\n".join("  | " + l[:300] for l in p.stdout.splitlines()[-12:]), "\n  rc", p.returncode, p.stderr[-800:])
finally:
    shutil.rmtree(tmp, ignore_errors=True)
