#!/usr/bin/env python3
"""Driver of one property check: build the harness from /repo's working tree, run it, write
/verif/evidence/<id>.json, print VIOLATION / KNOWN-FINDING lines.

  python3 vp/run.py C01                 (tier and seed from VERIF_TIER / VERIF_SEED)
  python3 vp/run.py C01 --replay FILE   (one saved choice sequence)
  python3 vp/run.py C01 --only NAME --scale 0.1
"""
import argparse, concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
DEPCACHE = bool(os.environ.get("VERIF_DEPCACHE"))
sys.path.insert(0, os.path.join(ROOT, "vp"))
from props import PROPS, GROUPS  # noqa: E402

ENV = dict(
    os.environ,
    ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:"
    "allocator_may_return_null=1:handle_segv=1",
    UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=1",
    TSAN_OPTIONS="halt_on_error=1:exitcode=99",
    OMPI_ALLOW_RUN_AS_ROOT="1",
    OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
)


def tree_hash(paths):
    h = hashlib.sha256()
    for base in paths:
        for d, dirs, files in os.walk(base):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, base).encode())
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def generated_header(group, outdir):
    """NeoFOAM/NeoFOAM.hpp, from the project's own template, with the headers of the group."""
    d = os.path.join(outdir, "gen", "NeoFOAM")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(REPO, "include/NeoFOAM/NeoFOAM.hpp.in")) as f:
        t = f.read()
    inc = "".join('#include "%s/include/NeoFOAM/%s"\n' % (REPO, h) for h in group.get("umbrella", []))
    with open(os.path.join(d, "NeoFOAM.hpp"), "w") as f:
        f.write(t.replace("@include_statements@", inc))
    return os.path.join(outdir, "gen")


JOBS = len(os.sched_getaffinity(0)) or 8


def unchanged(out):
    """For the tools that try many changes (VERIF_DEPCACHE): is the object made from these files as they are?"""
    try:
        with open(out + ".deps") as f:
            want, files = json.load(f)
        h = hashlib.sha256()
        for p in files:
            with open(p, "rb") as fh:
                h.update(fh.read())
        return h.hexdigest() == want and os.path.exists(out)
    except Exception:
        return False


def remember(out, dfile):
    with open(dfile) as f:
        files = f.read().replace("\\\n", " ").split(":", 1)[1].split()
    os.unlink(dfile)
    files = [p for p in files if not p.startswith("/usr/")]
    h = hashlib.sha256()
    for p in files:
        with open(p, "rb") as fh:
            h.update(fh.read())
    with open(out + ".deps", "w") as f:
        json.dump([h.hexdigest(), files], f)


def compile_all(jobs):
    """jobs: list of (command list, output).  Returns the outputs of the failed commands by output file."""
    def one(job):
        cmd, out = job
        if DEPCACHE and out.endswith(".o"):
            if unchanged(out):
                return None
        elif os.path.exists(out) and not DEPCACHE:
            os.utime(out)
            return None
        tmp = out + ".tmp%d" % os.getpid()
        if DEPCACHE and out.endswith(".o"):
            cmd = cmd + ["-MMD", "-MF", tmp + ".d"]
        r = subprocess.run(cmd + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return " ".join(cmd) + "\n" + r.stdout[-6000:]
        os.replace(tmp, out)
        if DEPCACHE and out.endswith(".o"):
            remember(out, tmp + ".d")
        return None

    with concurrent.futures.ThreadPoolExecutor(max_workers=JOBS) as ex:
        return {out: res for (_, out), res in zip(jobs, ex.map(one, jobs)) if res}


def link_with_everything(exe, link, compiler, sources, stamp):
    todo = []
    for d, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            s = os.path.join(d, f)
            if f.endswith(".cpp") and s not in sources:
                cmd = compiler + ["-c", s]
                key = hashlib.sha256((stamp + "\0" + " ".join(cmd)).encode()).hexdigest()[:24]
                todo.append((cmd, os.path.join(BUILD, "obj", key + ".o")))
    bad = compile_all(todo)
    archive = exe + ".rest.a"
    if os.path.exists(archive):
        os.unlink(archive)
    subprocess.run(["ar", "rc", archive] + [o for _, o in todo if o not in bad])
    at = max(i for i, x in enumerate(link) if x.endswith(".o")) + 1
    return not compile_all([(link[:at] + [archive] + link[at:], exe)])


def build(spec, keep_going=False):
    """Compiles the harness of one property; returns the binary."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    stamp = tree_hash(
        [os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(ROOT, "harness"), os.path.join(ROOT, "shim")]
    )
    if DEPCACHE:
        stamp = ""
    binaries, todo, seen = [], [], set()
    for target in spec["targets"]:
        group = GROUPS[target["group"]]
        cxx = group.get("cxx", "g++")
        gen = generated_header(group, os.path.join(BUILD, target["group"]))
        flags = group["flags"] + target.get("flags", [])
        inc = ["-I" + os.path.join(ROOT, p) for p in group.get("shim", []) + target.get("shim", [])]
        inc += ["-I" + gen, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(ROOT, "harness")]
        sources = [os.path.join(ROOT, "harness", s) for s in target["sources"]]
        repo_sources = target.get("repo", group["repo"])
        sources += [os.path.join(REPO, s) for s in repo_sources if os.path.exists(os.path.join(REPO, s))]
        objs = []
        for s in sources:
            cmd = [cxx] + flags + inc + ["-c", s]
            key = hashlib.sha256((stamp + "\0" + " ".join(cmd)).encode()).hexdigest()[:24]
            o = os.path.join(BUILD, "obj", key + ".o")
            objs.append(o)
            if o not in seen:
                seen.add(o)
                todo.append((cmd, o))
        link = [cxx] + group["flags"] + target.get("flags", []) + objs + group.get("libs", []) + target.get("libs", [])
        key = hashlib.sha256((stamp + "\0" + " ".join(link)).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, "obj", key + ".exe")
        binaries.append((target, exe, objs, link, [cxx] + flags + inc, sources))
    # the slow ones first: harnesses before the project's own sources
    bad = compile_all(sorted(todo, key=lambda j: j[0][-1].startswith(REPO)))
    bad.update(compile_all([(b[3], b[1]) for b in binaries if not any(o in bad for o in b[2])]))
    result = []
    for target, exe, objs, link, compiler, sources in binaries:
        if exe in bad and not any(o in bad for o in objs):
            # a definition is somewhere else than expected: offer the linker the project's other sources
            if link_with_everything(exe, link, compiler, sources, stamp):
                del bad[exe]
        errors = [bad[o] for o in objs + [exe] if o in bad]
        if not errors:
            result.append((target, exe))
        elif target.get("optional"):
            # the rest of the property is still decided by the other targets
            print("not built: %s" % target.get("name"))
        else:
            option = target.get("option")
            if option:
                # does it compile without the option?  Then the project is what does not build with it.
                plain = [(cmd, o) for cmd, o in plain_jobs(bad, objs, todo, option, stamp)]
                if plain and not compile_all(plain):
                    return None, ("option", option, errors[0])
            return None, errors[0]
    return result, None


def plain_jobs(bad, objs, todo, option, stamp):
    for cmd, o in todo:
        if o in objs and o in bad:
            cmd = [x for x in cmd if x != option]
            key = hashlib.sha256((stamp + "\0" + " ".join(cmd)).encode()).hexdigest()[:24]
            yield cmd, os.path.join(BUILD, "obj", key + ".o")


def known_entries():
    p = os.path.join(ROOT, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> id=<name> <what fails>
                parts = line[len("finding:"):].split(None, 2)
                prop = parts[0].split("=", 1)[1]
                name = parts[1].split("=", 1)[1]
                out.setdefault(prop, {})[name] = parts[2] if len(parts) > 2 else ""
    return out


def option_fails(prop, tier, seed, spec, option, error, t0):
    """What compiles without the option does not compile with it."""
    replay_dir = os.path.join(ROOT, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    path = os.path.join(replay_dir, prop + "-build.replay")
    with open(path, "w") as f:
        f.write("compiles without %s and not with it:\n%s\n" % (option, error))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": spec["rule"] + " The build with the option failed, no case was generated.",
                     "samples": [{"check": "build", "case": error[:300]}]},
        "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("  compiles without %s and not with it: %s" % (option, error[:1500]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep-going", action="store_true", help="run the remaining targets after one fails")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = PROPS[a.prop]
    binaries, err = build(spec)
    if err and err[0] == "option":
        return option_fails(a.prop, tier, seed, spec, err[1], err[2], t0)
    if err:
        print("BUILD-ERROR property=%s\n%s" % (a.prop, err[-6000:]))
        return 2
    if a.build_only:
        return 0
    built = time.time() - t0
    if a.replay:
        for target, exe in binaries:
            r = subprocess.run([exe, "--replay", a.replay], env=ENV)
            if r.returncode != 3:
                return r.returncode
        return 2
    replay_dir = os.path.join(ROOT, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    budget = 150.0 if tier == "quick" else 600.0
    checks, known = [], []
    failed = False
    for n, (target, exe) in enumerate(binaries):
        out = tempfile.mktemp(prefix="out", dir=BUILD)
        left = max(20.0, budget - (time.time() - t0 - built)) / (len(binaries) - n)
        cmd = [exe, "--prop", a.prop, "--tier", tier, "--seed", str(seed), "--out", out, "--replay-dir", replay_dir,
               "--budget", str(left), "--scale", str(a.scale * target.get("scale", 1.0)), "--jobs", str(JOBS)]
        if a.only:
            cmd += ["--only", a.only]
        r = subprocess.run(cmd, env=ENV, stdin=subprocess.DEVNULL)
        try:
            with open(out) as f:
                res = json.load(f)
        except Exception as e:
            print("HARNESS-ERROR property=%s exit=%s %s" % (a.prop, r.returncode, e))
            return 2
        finally:
            if os.path.exists(out):
                os.unlink(out)
        for c in res["checks"]:
            c["target"] = target.get("name", target["sources"][0])
        checks += res["checks"]
        # a harness that is run again for another property keeps its own findings to itself
        known += [] if target.get("again") else res["known"]
        if any(c["failed"] for c in res["checks"]):
            failed = True
            if not a.keep_going:
                break

    listed = known_entries().get(a.prop, {})
    violations = []
    for c in checks:
        if c["failed"]:
            violations.append((c["replay"], c["name"] + ": " + c["message"]))
    for k in known:
        if k["id"] in listed:
            print("KNOWN-FINDING: property=%s %s: %s" % (a.prop, k["id"], k["what"] or listed[k["id"]]))
        else:
            p = os.path.join(replay_dir, "%s-%s.replay" % (a.prop, k["id"]))
            with open(p, "w") as f:
                f.write("regression %s of property %s fails:\n%s\n" % (k["id"], a.prop, k["what"]))
            violations.append((p, k["id"] + ": " + k["what"]))

    samples = []
    for c in checks:
        for s in c["samples"][:2]:
            samples.append({"check": c["name"], "case": s})
    coverage = {
        "evaluations": sum(c["evaluations"] for c in checks),
        "distinct_nontrivial": sum(c["distinct_nontrivial"] for c in checks),
        "rule": spec["rule"] + " Non-trivial, per generated check: "
        + "; ".join("%s: %s" % (c["name"], c["rule"]) for c in checks),
        "samples": samples[:14] or [{"check": c["name"], "case": "no non-trivial case before the failure"} for c in checks],
        "checks": [
            {k: c[k] for k in ("name", "target", "evaluations", "distinct_nontrivial", "discarded", "labels",
                               "timed_out", "failed", "message", "unconfirmed", "shrink_runs")}
            for c in checks
        ],
        "known_findings_present": [k["id"] for k in known if k["id"] in listed],
        "build_s": round(built, 1),
    }
    ev = {
        "property": a.prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not a.only:
        tmp = os.path.join(ROOT, "evidence", a.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(ROOT, "evidence", a.prop + ".json"))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s" % (
        a.prop, tier, seed, coverage["evaluations"], coverage["distinct_nontrivial"], built, time.time() - t0))
    for path, msg in violations:
        print("  " + msg.replace("\n", "\n  ")[:1500])
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
