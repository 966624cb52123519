#!/usr/bin/env python3
"""verify_seed.py ID...: in a scratch copy of /repo: demo passes, patch applies, builds, tests pass, demo fails.
   --checks also runs the property's quick check against the patched scratch copy (VERIF_REPO)."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = "--checks" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(ROOT + "/seeded"))
stable = json.load(open("/opt/vp/BASELINE.json"))
bad = 0
for i in ids:
    d = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed", dir="/tmp")
    repo = w + "/repo"
    shutil.copytree("/repo", repo, symlinks=True)
    dd = w + "/demo"
    shutil.copytree(d, dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    run = lambda c, **k: subprocess.run(c, shell=True, cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    res = []
    r0 = run("bash %s/demo.sh" % dd)
    res.append("clean demo %d" % r0.returncode)
    p = run("git apply %s/patch.diff" % d)
    res.append("apply %d" % p.returncode)
    r1 = run("bash %s/demo.sh" % dd)
    res.append("patched demo %d" % r1.returncode)
    ok = r0.returncode == 0 and p.returncode == 0 and r1.returncode != 0
    if not ok:
        print(r0.stdout[-1500:], p.stdout[-500:], r1.stdout[-1500:])
    # build and tests happen on /repo itself (the scripts name it)
    if ok and "--build" in sys.argv:
        try:
            subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
            b = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            t = subprocess.run(["bash", "/opt/vp/test.sh", w + "/o.json"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            o = json.load(open(w + "/o.json"))
            res.append("build %d tests %d passed %s failed" % (b.returncode, len(o["passed"]), o["failed"]))
            ok = ok and b.returncode == 0 and len(o["passed"]) >= 24 and not o["failed"]
        finally:
            subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
    if ok and checks:
        r = subprocess.run(["python3", ROOT + "/vp/run.py", meta["property"]], cwd=ROOT, env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1"),
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        hit = r.returncode == 1 and "VIOLATION property=" + meta["property"] in r.stdout
        res.append("check %s" % ("CATCHES" if hit else "misses (%d)" % r.returncode))
    shutil.rmtree(w)
    bad += not ok
    print(i, meta["property"], "OK" if ok else "BAD", "; ".join(res), flush=True)
sys.exit(bad != 0)
