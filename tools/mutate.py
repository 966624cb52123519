#!/usr/bin/env python3
"""Mutation test of the checks: small changes of /repo's files, one at a time, in scratch copies.

  tools/mutate.py [--workers 4] [--per-file 20] [--seed 1] [--out FILE] FILE...     (paths below /repo; default: all files of properties.py)

For each change the checks of the properties that name the file run until one reports it; the changes that none reports are listed.
"""
import argparse, os, random, re, shutil, subprocess, sys, threading, json

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

WORD = "word"
SWAPS = [
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\+=", "-="), (r"-=", "+="), (r"\+=", "="),
    (r"(?<![<\w>]) < (?!<)", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r"==", "!="), (r"!=", "=="),
    (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1\.0", "2.0"), (r"(?<![\w.])0\.0", "1.0"), (r"\b0\.5\b", "1.0"),
    (r"\bbegin\b", "end"), (r"\bfirst\b", "second"), (r"\bsecond\b", "first"),
    (r"([oO])wner", WORD), (r"([nN])eighbour", WORD), (r"([uU])pper", WORD), (r"([lL])ower", WORD),
    (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"atomic_add", "atomic_sub"), (r"atomic_sub", "atomic_add"),
    (r"if \(([^;]*)\)\s*$", r"if (!(\1))"), (r"if \(([^;]*)\)\s*$", r"if (false && (\1))"), (r"if \(([^;]*)\)\s*$", r"if (true || (\1))"),
    (r"\[(\w+)\]", r"[\1 + 1]"), (r"\[(\w+)\]", r"[0]"), (r"\bi\b", "(i + 1)"), (r"\.first\b", ".second"), (r"Kokkos::atomic_(add|sub|assign|increment|fetch_add)\(", "racy"),
    (r"std::move\((\w+)\)", r"\1"), (r"\binternalField\b", "field"), (r"\bsend", "receive"), (r"\breceive", "send"), (r"_\b", "_"),
    (r"(\w+) - (\w+)", r"\2 - \1"), (r"-(\w)", r"\1"), (r"\brefValue\b", "refGrad"), (r"\bsize\(\)", "size() - 1"), (r"continue;", ";"), (r"break;", ";"), (r"&(\w+)", r"\1"),
]


def word(m, new):
    # owner <-> neighbour and upper <-> lower, keeping the case of the first letter
    s = m.group(0)
    table = {"owner": "neighbour", "neighbour": "owner", "upper": "lower", "lower": "upper"}
    t = table[s.lower()]
    return t[0].upper() + t[1:] if s[0].isupper() else t


def mutants(text):
    lines = text.split("\n")
    out, comment = [], False
    for n, l in enumerate(lines):
        s = l.strip()
        if comment:
            comment = "*/" not in s
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "NF_DEBUG", "template", "using", "namespace", "NF_ASSERT_MSG", "static_assert")):
            continue
        code = l.split("//")[0]
        for pat, new in SWAPS:
            if new == "_":
                continue
            for m in re.finditer(pat, code):
                if code[: m.start()].count('"') % 2:
                    continue
                if new == "racy":
                    r = {"add": "[](auto* a, auto b) { *a += b; }(", "sub": "[](auto* a, auto b) { *a -= b; }(", "assign": "[](auto* a, auto b) { *a = b; }(", "increment": "[](auto* a) { ++*a; }(",
                         "fetch_add": "[](auto* a, auto b) { auto c = *a; *a += b; return c; }("}[m.group(1)]
                elif new == WORD:
                    r = word(m, new)
                else:
                    r = m.expand(new)
                t = code[: m.start()] + r + code[m.end():]
                if t != code:
                    out.append((n, t))
        # leave a statement out
        if re.match(r"^\s*[\w:.\->\[\]()*<>&, ]+(=|\(|\+=|-=|\*=|/=).*;\s*$", code) and not re.match(r"^\s*(return|const|auto|static|virtual|friend|using|typedef|struct|class|inline|throw)\b", code) \
                and not re.match(r"^\s*[\w:<>,*& ]+ [\w]+\s*(=|\{).*;", code):
            out.append((n, re.match(r"^\s*", code).group(0) + ";"))
        if re.match(r"^\s*return .*;", code) and "(" in code and False:
            out.append((n, "return {};"))
    return lines, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--per-file", type=int, default=20)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out", default="/tmp/mutants.txt")
    ap.add_argument("--match", default="", help="only changes of lines with this")
    ap.add_argument("--props")
    ap.add_argument("--also", default="")
    ap.add_argument("files", nargs="*")
    a = ap.parse_args()
    owners = FILES
    todo = []
    for f in a.files or sorted(owners):
        path = os.path.join("/repo", f)
        if not os.path.exists(path):
            continue
        lines, ms = mutants(open(path).read())
        ms = [m for m in ms if re.search(a.match, lines[m[0]])]
        rng = random.Random("%d %s" % (a.seed, f))
        rng.shuffle(ms)
        props = a.props.split(",") if a.props else owners.get(f, [])
        props = props + [x for x in a.also.split(",") if x]
        for n, t in ms[: a.per_file]:
            todo.append((f, n, t, props))
    # files in turn, so that the objects of one stay
    print(len(todo), "changes", flush=True)
    lock = threading.Lock()
    queue = list(reversed(todo))
    counts = {"caught": 0, "missed": 0, "no build": 0, "other": 0}
    cpus = sorted(os.sched_getaffinity(0))
    share = max(1, len(cpus) // a.workers)

    def work(w):
        base = "/tmp/mutate%d" % w
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        subprocess.run(["cp", "-a", "/repo", base + "/repo"], check=True)
        subprocess.run("mkdir %s/verif && cp -a %s/vp %s/harness %s/shim %s/known_findings.txt %s/verif/" % (base, ROOT, ROOT, ROOT, ROOT, base), shell=True, check=True)
        mine = ",".join(str(c) for c in cpus[w * share:(w + 1) * share])
        env = dict(os.environ, VERIF_REPO=base + "/repo", VERIF_DEPCACHE="1")
        while True:
            with lock:
                if not queue:
                    break
                f, n, t, props = queue.pop()
            path = os.path.join(base, "repo", f)
            original = open(path).read()
            lines = original.split("\n")
            before = lines[n]
            lines[n] = t
            open(path, "w").write("\n".join(lines))
            verdict, by = "missed", ""
            for p in props:
                r = subprocess.run(["taskset", "-c", mine, "timeout", "300", "python3", base + "/verif/vp/run.py", p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if "BUILD-ERROR" in r.stdout:
                    verdict = "no build"
                    break
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    verdict, by = "caught", p
                    break
                if r.returncode != 0:
                    verdict, by = "other", p + " exit %d " % r.returncode + r.stdout[-300:].replace("\n", " | ")
            open(path, "w").write(original)
            with lock:
                counts[verdict] += 1
                with open(a.out, "a") as o:
                    o.write("%s %s %s:%d\n    - %s\n    + %s\n" % (verdict.upper(), by, f, n + 1, before.strip(), t.strip()))
        shutil.rmtree(base, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(w,)) for w in range(a.workers)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print(counts)


def load():
    d = {}
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        p = json.loads(l)
        for f in p["anchors"]["files"]:
            d.setdefault(f, []).append(p["id"])
    return d


if __name__ == "__main__":
    FILES = load()
    main()
